//! Exploration driver: case accounting, panic capture, hang watchdog, evidence, known findings.
use serde_json::{Map, Value, json};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = rustc_hash::FxHasher::default();
    t.hash(&mut h);
    h.finish()
}

const SHARDS: usize = 64;
pub struct ShardedSet(Vec<Mutex<rustc_hash::FxHashSet<u64>>>);
impl ShardedSet {
    fn new() -> Self {
        ShardedSet((0..SHARDS).map(|_| Mutex::new(Default::default())).collect())
    }
    pub fn insert(&self, h: u64) -> bool {
        self.0[(h.rotate_left(17) as usize) % SHARDS].lock().unwrap().insert(h)
    }
    pub fn all(&self) -> Vec<u64> {
        self.0.iter().flat_map(|s| s.lock().unwrap().iter().copied().collect::<Vec<_>>()).collect()
    }
    pub fn len(&self) -> usize {
        self.0.iter().map(|s| s.lock().unwrap().len()).sum()
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static SLOT: RefCell<Option<usize>> = const { RefCell::new(None) };
}

pub const NSLOTS: usize = 64;
#[derive(Default)]
struct Slot {
    since: Option<Instant>,
    id: String,
}

pub struct Run {
    pub prop: String,
    pub thorough: bool,
    pub seed: i64,
    pub only: Option<String>,
    pub verif: PathBuf,
    pub start: Instant,
    deadline: Instant,
    pub capped: AtomicBool,
    pub evals: AtomicU64,
    pub transitions: AtomicU64,
    pub states: ShardedSet,
    pub outcomes: ShardedSet,
    samples: Mutex<Vec<Value>>,
    viol: Mutex<BTreeMap<String, (String, Value)>>,
    known_hit: Mutex<BTreeMap<String, String>>,
    known: Vec<(String, String)>, // (case id prefix, description)
    pub notes: Mutex<Map<String, Value>>,
    slots: Vec<Mutex<Slot>>,
    next_slot: AtomicU64,
    stage: AtomicU64,
    resume: (u64, u64), // stage and item where this process continues
    live: Option<Live>,
    pub hang_secs: AtomicU64,
    /// threads for parallel iterators of the library in each thread of the exploration
    pub pool_threads: AtomicU64,
    pub level: Mutex<&'static str>,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
}

thread_local! {
    static GUARDED: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("panic at {loc}: {msg}");
        if std::env::var("MC_TRACE_PANIC").is_ok() {
            eprintln!("{text}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if GUARDED.try_with(|g| g.get() == 0).unwrap_or(false) && std::thread::current().name() == Some("main") {
            eprintln!("{text}");
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(text));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
}

/// Run `f`, turning a panic into an error text
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    GUARDED.with(|g| g.set(g.get() + 1));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(g.get() - 1));
    match r {
        Ok(r) => r,
        Err(_) => Err(last_panic()),
    }
}

impl Run {
    pub fn new(prop: &str, thorough: bool, verif: PathBuf, only: Option<String>) -> Run {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let cap: u64 = std::env::var("MC_CAP_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 780 } else { 300 });
        let mut known = Vec::new();
        if let Ok(txt) = std::fs::read_to_string(verif.join("known-findings.txt")) {
            for l in txt.lines() {
                if let Some(rest) = l.strip_prefix(&format!("known: property={prop} case=")) {
                    let (case, desc) = rest.split_once(" :: ").unwrap_or((rest, ""));
                    known.push((case.trim().to_string(), desc.to_string()));
                }
            }
        }
        Run {
            prop: prop.to_string(),
            thorough,
            seed,
            only,
            verif,
            start: Instant::now(),
            deadline: Instant::now() + Duration::from_secs(cap),
            capped: AtomicBool::new(false),
            evals: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            states: ShardedSet::new(),
            outcomes: ShardedSet::new(),
            samples: Mutex::new(vec![]),
            viol: Mutex::new(Default::default()),
            known_hit: Mutex::new(Default::default()),
            known,
            notes: Mutex::new(Map::new()),
            slots: (0..NSLOTS).map(|_| Mutex::new(Slot::default())).collect(),
            next_slot: AtomicU64::new(0),
            stage: AtomicU64::new(0),
            resume: (0, 0),
            live: None,
            hang_secs: AtomicU64::new(150),
            pool_threads: AtomicU64::new(1),
            level: Mutex::new("model_checking"),
            rule: Mutex::new(String::new()),
            assumptions: Mutex::new(vec![]),
        }
    }

    /// Continue where the previous worker process stopped (see `supervise`)
    pub fn resume(&mut self) {
        let Ok(dir) = std::env::var("MC_CHILD") else { return };
        let dir = PathBuf::from(dir);
        if let Ok(ms) = std::env::var("MC_ELAPSED_MS") {
            let d = Duration::from_millis(ms.parse().unwrap_or(0));
            self.start -= d;
            self.deadline -= d;
        }
        if let Ok(txt) = std::fs::read_to_string(dir.join("checkpoint.json")) {
            let v: Value = serde_json::from_str(&txt).unwrap();
            let n = |k: &str| v[k].as_u64().unwrap();
            self.resume = (n("stage"), n("item"));
            self.evals = AtomicU64::new(n("evals"));
            self.transitions = AtomicU64::new(n("transitions"));
            for h in v["states"].as_array().unwrap() {
                self.states.insert(h.as_u64().unwrap());
            }
            for h in v["outcomes"].as_array().unwrap() {
                self.outcomes.insert(h.as_u64().unwrap());
            }
            self.samples = Mutex::new(v["samples"].as_array().unwrap().clone());
            self.notes = Mutex::new(v["notes"].as_object().unwrap().clone());
            let mut m = self.viol.lock().unwrap();
            for (k, w) in v["viol"].as_object().unwrap() {
                m.insert(k.clone(), (w.as_str().unwrap().to_string(), Value::Null));
            }
            drop(m);
            let mut m = self.known_hit.lock().unwrap();
            for (k, w) in v["known"].as_object().unwrap() {
                m.insert(k.clone(), w.as_str().unwrap().to_string());
            }
        }
        self.live = Live::open(&dir.join("live"));
    }

    fn checkpoint(&self, stage: u64, item: u64) -> ! {
        let dir = PathBuf::from(std::env::var("MC_CHILD").unwrap());
        let viol: Map<String, Value> = self.viol.lock().unwrap().iter().map(|(k, v)| (k.clone(), json!(v.0))).collect();
        let known: Map<String, Value> = self.known_hit.lock().unwrap().iter().map(|(k, v)| (k.clone(), json!(v))).collect();
        let v = json!({"stage": stage, "item": item, "evals": self.evals.load(SeqCst), "transitions": self.transitions.load(SeqCst),
            "states": self.states.all(), "outcomes": self.outcomes.all(), "samples": *self.samples.lock().unwrap(),
            "notes": *self.notes.lock().unwrap(), "viol": viol, "known": known});
        std::fs::write(dir.join("checkpoint.json"), v.to_string()).unwrap();
        std::process::exit(CONTINUE);
    }

    pub fn q<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }

    pub fn time_up(&self) -> bool {
        if Instant::now() > self.deadline {
            self.capped.store(true, SeqCst);
            true
        } else {
            false
        }
    }
    pub fn too_many(&self) -> bool {
        self.viol.lock().unwrap().len() >= std::env::var("MC_MAXVIOL").ok().and_then(|x| x.parse().ok()).unwrap_or(25)
    }
    pub fn note(&self, k: &str, v: impl Into<Value>) {
        self.notes.lock().unwrap().insert(k.to_string(), v.into());
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn sample(&self, v: impl FnOnce() -> Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 8 {
            let v = v();
            s.push(v);
        }
    }
    pub fn trans(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn state<T: Hash + ?Sized>(&self, t: &T) -> bool {
        self.states.insert(hash64(t))
    }
    pub fn outcome<T: Hash + ?Sized>(&self, t: &T) {
        self.outcomes.insert(hash64(t));
    }
    pub fn violation(&self, id: &str, what: &str) {
        for (case, desc) in &self.known {
            if id == case {
                self.known_hit.lock().unwrap().insert(case.clone(), desc.clone());
                return;
            }
        }
        let mut v = self.viol.lock().unwrap();
        if let Ok(f) = std::env::var("MC_VLIST") {
            // list of all violations for development
            if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(f) {
                let _ = std::io::Write::write_fmt(&mut f, format_args!("{id}\t{}\n", what.lines().next().unwrap_or_default()));
            }
            if v.len() >= 20 {
                return;
            }
        }
        if v.len() < 200 {
            v.entry(id.to_string()).or_insert_with(|| (what.to_string(), Value::Null));
        }
    }

    fn slot(&self) -> usize {
        SLOT.with(|s| {
            let mut s = s.borrow_mut();
            *s.get_or_insert_with(|| self.next_slot.fetch_add(1, SeqCst) as usize % NSLOTS)
        })
    }

    pub fn wanted(&self, id: &dyn Fn() -> String) -> bool {
        match &self.only {
            None => true,
            Some(o) => &id() == o,
        }
    }

    /// Execute one case. Panics and errors become violations.
    pub fn case(&self, id: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        if !self.wanted(&id) || self.too_many() {
            return;
        }
        if self.stage.load(Relaxed) < self.resume.0 {
            // done by a previous worker process
            return;
        }
        let slot = self.slot();
        if let Some(l) = &self.live {
            l.set(slot, &id());
        }
        {
            let mut s = self.slots[slot].lock().unwrap();
            s.since = Some(Instant::now());
            s.id = id();
        }
        self.evals.fetch_add(1, Relaxed);
        let t0 = Instant::now();
        let r = guarded(f);
        if let Ok(ms) = std::env::var("MC_TIMES")
            && t0.elapsed().as_millis() > ms.parse().unwrap_or(1000)
        {
            eprintln!("{:?} {}", t0.elapsed(), id());
        }
        self.slots[slot].lock().unwrap().since = None;
        if let Some(l) = &self.live {
            l.set(slot, "");
        }
        if let Err(e) = r {
            self.violation(&id(), &e);
        }
    }

    /// The current case makes progress
    pub fn alive(&self) {
        let slot = self.slot();
        let mut s = self.slots[slot].lock().unwrap();
        if s.since.is_some() {
            s.since = Some(Instant::now());
        }
    }

    /// Process the items in parallel on all cores, in order of enumeration.
    #[allow(dead_code)]
    pub fn par<T: Send>(&self, it: impl Iterator<Item = T> + Send, f: impl Fn(T) + Sync) {
        self.par_n(std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16), 16, it, f)
    }
    pub fn par_n<T: Send>(&self, threads: usize, batch: usize, it: impl Iterator<Item = T> + Send, f: impl Fn(T) + Sync) {
        let stage = self.stage.load(Relaxed);
        if stage < self.resume.0 {
            self.stage.fetch_add(1, Relaxed);
            return;
        }
        let skip = if stage == self.resume.0 { self.resume.1 } else { 0 };
        let mut it = it;
        if skip > 0 {
            it.nth(skip as usize - 1);
        }
        let it = Mutex::new((it, skip));
        let full = AtomicBool::new(false);
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| {
                    // parallel iterators of the library are executed on this thread only
                    let pool = rayon::ThreadPoolBuilder::new().num_threads(self.pool_threads.load(Relaxed) as usize).stack_size(64 << 20).build().unwrap();
                    pool.install(|| {
                        loop {
                            if self.time_up() || self.too_many() || full.load(Relaxed) {
                                break;
                            }
                            let chunk: Vec<T> = {
                                let mut g = it.lock().unwrap();
                                let c: Vec<T> = g.0.by_ref().take(batch).collect();
                                g.1 += c.len() as u64;
                                c
                            };
                            if chunk.is_empty() {
                                break;
                            }
                            for c in chunk {
                                f(c)
                            }
                            if self.live.is_some() && rss_mb() > max_rss_mb() {
                                full.store(true, Relaxed);
                            }
                        }
                    })
                });
            }
        });
        if full.load(Relaxed) && !self.too_many() {
            let done = it.lock().unwrap().1;
            self.checkpoint(stage, done);
        }
        self.stage.fetch_add(1, Relaxed);
    }

    /// Spawn the watchdog which reports a case that does not end.
    pub fn watchdog(&'static self) {
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let lim = Duration::from_secs(self.hang_secs.load(Relaxed));
                for s in &self.slots {
                    let (hang, id) = {
                        let s = s.lock().unwrap();
                        (s.since.map(|t| t.elapsed() > lim).unwrap_or(false), s.id.clone())
                    };
                    if hang {
                        self.violation(&id, &format!("did not return within {} s", lim.as_secs()));
                        let code = self.finish();
                        std::process::exit(code);
                    }
                }
            }
        });
    }

    pub fn finish(&self) -> i32 {
        let viol = self.viol.lock().unwrap();
        let known = self.known_hit.lock().unwrap();
        let tier = if self.thorough { "thorough" } else { "quick" };
        let wall = self.start.elapsed().as_secs_f64();
        let mut cov = Map::new();
        let level = *self.level.lock().unwrap();
        let evals = self.evals.load(SeqCst);
        let states = self.states.len() as u64;
        let outcomes = self.outcomes.len() as u64;
        let transitions = self.transitions.load(SeqCst);
        if level == "model_checking" {
            cov.insert("states".into(), json!(states));
            cov.insert("transitions".into(), json!(transitions));
            cov.insert("traces_validated_against_impl".into(), json!(evals));
        } else {
            cov.insert("evaluations".into(), json!(evals));
            cov.insert("distinct_nontrivial".into(), json!(states.max(outcomes)));
            cov.insert("states".into(), json!(states));
            cov.insert("transitions".into(), json!(transitions));
        }
        cov.insert("distinct_outcomes".into(), json!(outcomes));
        cov.insert("rule".into(), json!(self.rule.lock().unwrap().clone()));
        cov.insert("exhaustive".into(), json!(!self.capped.load(SeqCst) && self.only.is_none()));
        cov.insert("samples".into(), Value::Array(self.samples.lock().unwrap().clone()));
        for (k, v) in self.notes.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone());
        }
        let ev = json!({
            "property": self.prop, "tier": tier, "seed": self.seed, "level": level,
            "coverage": Value::Object(cov), "wall_s": wall, "violations": viol.len(),
            "assumptions": self.assumptions.lock().unwrap().clone(),
            "known_findings_hit": known.keys().cloned().collect::<Vec<_>>(),
        });
        if self.only.is_none() {
            let dir = self.verif.join("evidence");
            let _ = std::fs::create_dir_all(&dir);
            let _ = std::fs::write(dir.join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&ev).unwrap() + "\n");
        }
        println!(
            "{} tier={} executions={} states={} transitions={} distinct_outcomes={} capped={} wall={:.1}s",
            self.prop, tier, evals, states, transitions, outcomes, self.capped.load(SeqCst), wall
        );
        for (case, desc) in known.iter() {
            println!("KNOWN-FINDING: property={} case={} {}", self.prop, case, desc);
        }
        if viol.is_empty() {
            return 0;
        }
        let rdir = self.verif.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        for (n, (id, (what, _))) in viol.iter().enumerate() {
            let path = rdir.join(format!("{}-{:016x}.json", self.prop, hash64(id)));
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": self.prop, "tier": tier, "case": id, "what": what})).unwrap() + "\n");
            if n < 10 {
                println!("VIOLATION property={} replay={}", self.prop, path.display());
                println!("  case: {id}");
                println!("  {}", what.chars().take(1500).collect::<String>());
            }
        }
        println!("{} violations in total", viol.len());
        1
    }
}

/// Require equality with a message
#[macro_export]
macro_rules! must_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        match (&$a, &$b) {
            (a, b) => if a != b { return Err(format!("{}: expected {:?}, got {:?}", format!($($arg)*), b, a)); }
        }
    }};
}
#[macro_export]
macro_rules! must {
    ($a:expr, $($arg:tt)*) => {{ if !$a { return Err(format!($($arg)*)); } }};
}

pub fn es<T, E: std::fmt::Display>(r: Result<T, E>, what: &str) -> Result<T, String> {
    r.map_err(|e| format!("{what} returned error: {e}"))
}

pub fn scratch() -> PathBuf {
    if std::env::var("MC_CHILD").is_ok() {
        return std::env::temp_dir();
    }
    let base = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    base
}
pub fn tmpdir(prefix: &str) -> tempfile::TempDir {
    tempfile::Builder::new().prefix(&format!("mc-{prefix}-")).tempdir_in(scratch()).unwrap()
}

/// exit code of a worker process that used up its memory (a dependency of the library leaks) and wants to be continued
const CONTINUE: i32 = 77;
const LIVE_LEN: usize = 1024;

fn rss_mb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) * 4 / 1024
}
fn max_rss_mb() -> u64 {
    std::env::var("MC_RSS_MB").ok().and_then(|s| s.parse().ok()).unwrap_or(6000)
}

/// The cases currently executed, in a file that outlives this process
struct Live(Mutex<memmap2::MmapMut>);
impl Live {
    fn open(p: &std::path::Path) -> Option<Live> {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).ok()?;
        f.set_len((NSLOTS * LIVE_LEN) as u64).ok()?;
        Some(Live(Mutex::new(unsafe { memmap2::MmapMut::map_mut(&f) }.ok()?)))
    }
    fn set(&self, slot: usize, id: &str) {
        let mut m = self.0.lock().unwrap();
        let b = id.as_bytes();
        let n = b.len().min(LIVE_LEN - 2);
        let o = slot * LIVE_LEN;
        m[o] = (n % 256) as u8;
        m[o + 1] = (n / 256) as u8;
        m[o + 2..o + 2 + n].copy_from_slice(&b[..n]);
    }
    fn read(p: &std::path::Path) -> Vec<String> {
        let b = std::fs::read(p).unwrap_or_default();
        b.chunks(LIVE_LEN)
            .filter_map(|c| {
                let n = c[0] as usize + 256 * c[1] as usize;
                (n > 0).then(|| String::from_utf8_lossy(&c[2..2 + n]).to_string())
            })
            .collect()
    }
}

/// Run the exploration in worker processes: a worker which used too much memory is continued by
/// a new one, and a worker which was killed by a signal (abort, stack overflow) is a violation of
/// the case it executed.
pub fn supervise(prop: &str, thorough: bool, verif: PathBuf, dir: &std::path::Path) -> i32 {
    let start = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let replay = args.iter().any(|a| a == "--replay");
    loop {
        let st = std::process::Command::new(&exe)
            .args(&args)
            .env("MC_CHILD", dir)
            .env("MC_ELAPSED_MS", start.elapsed().as_millis().to_string())
            .status()
            .unwrap();
        use std::os::unix::process::ExitStatusExt;
        match (st.code(), st.signal()) {
            (Some(CONTINUE), _) => continue,
            (Some(c), _) => return c,
            (None, Some(9)) => {
                eprintln!("worker process was killed");
                return 2;
            }
            (None, sig) => {
                // find out which of the cases is responsible
                let live = Live::read(&dir.join("live"));
                let run = Run::new(prop, thorough, verif.clone(), replay.then(String::new));
                let f = dir.join("suspect.json");
                for id in &live {
                    std::fs::write(&f, json!({"case": id}).to_string()).unwrap();
                    let sub = dir.join("sub");
                    let _ = std::fs::create_dir_all(&sub);
                    let alone = std::process::Command::new(&exe)
                        .args([prop, if thorough { "thorough" } else { "quick" }, "--replay"])
                        .arg(&f)
                        .env("MC_CHILD", &sub)
                        .stdout(std::process::Stdio::null())
                        .status()
                        .unwrap();
                    if alone.code().is_none() {
                        run.violation(id, &format!("the process was killed by signal {:?}", alone.signal()));
                    }
                }
                let code = run.finish();
                if code == 0 {
                    let known = !run.known_hit.lock().unwrap().is_empty();
                    if !known || replay {
                        let id = live.first().cloned().unwrap_or_default();
                        run.violation(&id, &format!("the process was killed by signal {sig:?} while running {live:?}"));
                    }
                    return run.finish();
                }
                return code;
            }
        }
    }
}
