//! C23: a corpus directory is used by one corpus storage at a time, and closing it makes it available again.
use crate::cs;
use crate::must;
use crate::run::*;
use crate::sched::*;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::{CacheStrategy, ResultOrder};
use std::collections::BTreeSet;
use std::path::Path;
use std::sync::{Arc, Mutex};

/// What a client does after opening the storage
#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    Nothing,
    /// keep it open for a while
    Hold,
    /// add a node which has to be there when the storage is opened again
    Update,
}

#[derive(Clone, Debug)]
struct Conf {
    threads: Vec<Vec<A>>,
    /// an unlocked lock file exists before
    stale: bool,
    bound: usize,
}

/// The time from starting to open to the result, then to starting to close and the result of that. Ends of intervals
/// are 0 if there was an error.
#[derive(Clone, Debug)]
struct Use {
    thread: usize,
    from: u64,
    opened: u64,
    ok: bool,
    close: u64,
    closed: u64,
    err: String,
}

fn open(dir: &Path) -> Result<CorpusStorage, String> {
    CorpusStorage::with_cache_strategy(dir, CacheStrategy::FixedMaxMemory(4000), false).map_err(|e| e.to_string())
}

fn nodes(s: &CorpusStorage) -> Result<BTreeSet<String>, String> {
    if es(s.list(), "list")?.is_empty() {
        return Ok(BTreeSet::new());
    }
    Ok(es(s.find(cs::query(&["c"], "node"), 0, None, ResultOrder::Normal), "find")?.into_iter().collect())
}

fn add(s: &CorpusStorage, name: &str) -> Result<(), String> {
    let mut u = graphannis::update::GraphUpdate::new();
    es(u.add_event(graphannis::update::UpdateEvent::AddNode { node_name: name.into(), node_type: "node".into() }), "event")?;
    es(s.apply_update("c", &mut u), "update")
}

fn one(conf: &Conf, script: Vec<usize>) -> Result<(Vec<Point>, u64, String), String> {
    // the name marks the directory for the interposed file system functions
    let dir = tmpdir("mclk");
    let db = dir.path().join("db");
    es(std::fs::create_dir_all(&db), "mkdir")?;
    if conf.stale {
        es(std::fs::write(db.join("db.lock"), "x"), "write")?;
    }
    let sched = Sched::new(script, conf.bound, true);
    let uses: Arc<Mutex<Vec<Use>>> = Default::default();
    // acknowledged nodes
    let done: Arc<Mutex<BTreeSet<String>>> = Default::default();
    let mut fs: Vec<Box<dyn FnOnce(usize) + Send>> = vec![];
    for acts in &conf.threads {
        let (sched, uses, done, acts, db) = (sched.clone(), uses.clone(), done.clone(), acts.clone(), db.clone());
        fs.push(Box::new(move |me| {
            for (i, act) in acts.into_iter().enumerate() {
                if i > 0 {
                    sched.step(me);
                }
                let mut u = Use { thread: me, from: sched.now(), opened: 0, ok: false, close: 0, closed: 0, err: String::new() };
                let r = guarded(|| {
                    let s = open(&db);
                    u.opened = sched.now();
                    let s = match s {
                        Ok(s) => s,
                        Err(e) => {
                            u.err = e;
                            return Ok(());
                        }
                    };
                    u.ok = true;
                    if act == A::Update {
                        let before = nodes(&s)?;
                        let d = done.lock().unwrap().clone();
                        must!(before.is_superset(&d), "nodes {before:?} instead of {d:?} after opening");
                        let n = format!("t{me}-{i}");
                        add(&s, &n)?;
                        done.lock().unwrap().insert(n);
                    }
                    if act == A::Hold {
                        sched.step(me);
                    }
                    u.close = sched.now();
                    drop(s);
                    u.closed = sched.now();
                    Ok(())
                });
                if let Err(e) = r {
                    u.err = format!("crash: {e}");
                }
                uses.lock().unwrap().push(u);
            }
        }));
    }
    let out = sched.run(fs, Box::new(|_| {}));
    let mut uses = std::mem::take(&mut *uses.lock().unwrap());
    uses.sort_by_key(|u| (u.from, u.thread));
    let ctx = || format!("{} schedule {:?}", uses.iter().map(|u| format!("{u:?}")).collect::<Vec<_>>().join("; "), out.trace.iter().map(|p| p.chosen).collect::<Vec<_>>());
    if let Some(d) = &out.dead {
        return Err(format!("{d}: {}", ctx()));
    }
    for (i, u) in uses.iter().enumerate() {
        if u.err.starts_with("crash") {
            return Err(format!("{}: {}", u.err, ctx()));
        }
        if u.ok {
            // nobody else has it open
            for o in &uses[i + 1..] {
                must!(!o.ok || o.opened >= u.close && o.opened > u.opened || o.close <= u.opened, "opened twice at the same time: {u:?} and {o:?}: {}", ctx());
            }
        } else {
            // somebody else used it at some time during the attempt
            must!(u.err.contains("lock"), "unexpected error {}: {}", u.err, ctx());
            must!(uses.iter().any(|o| o.ok && o.from <= u.opened && o.closed >= u.from), "could not be opened although nobody else used it: {u:?}: {}", ctx());
        }
    }
    // available again
    let s = open(&db).map_err(|e| format!("can not be opened after all have been closed: {e}: {}", ctx()))?;
    must!(open(&db).is_err(), "opened twice: {}", ctx());
    let n: BTreeSet<String> = nodes(&s)?;
    let d = done.lock().unwrap().clone();
    must!(n == d, "nodes {n:?} instead of {d:?} after reopening: {}", ctx());
    drop(s);
    drop(open(&db).map_err(|e| format!("can not be opened again: {e}"))?);
    let h = format!("{conf:?}{:?}", uses.iter().map(|u| (u.thread, u.ok)).collect::<Vec<_>>());
    Ok((out.trace, out.steps, h))
}

fn configurations(run: &Run) -> Vec<Conf> {
    let mut r = vec![];
    use A::*;
    let all = [Nothing, Hold, Update];
    let mut seqs: Vec<Vec<A>> = vec![];
    for a in all {
        seqs.push(vec![a]);
        for b in all {
            seqs.push(vec![a, b]);
        }
    }
    for stale in [false, true] {
        for (i, a) in seqs.iter().enumerate() {
            for b in &seqs[i..] {
                r.push(Conf { threads: vec![a.clone(), b.clone()], stale, bound: if a.len() + b.len() == 2 { run.q(3, 5) } else { run.q(2, 3) } });
            }
        }
        for (i, a) in seqs.iter().enumerate() {
            for (j, b) in seqs.iter().enumerate().skip(i) {
                for c in &seqs[j..] {
                    let n = a.len() + b.len() + c.len();
                    if n <= run.q(4, 6) {
                        r.push(Conf { threads: vec![a.clone(), b.clone(), c.clone()], stale, bound: if n == 3 { run.q(2, 3) } else { run.q(1, 2) } });
                    }
                }
            }
        }
        // all schedules
        for t in [vec![vec![Nothing], vec![Nothing]], vec![vec![Hold], vec![Nothing]], vec![vec![Hold], vec![Hold]], vec![vec![Nothing], vec![Hold], vec![Nothing]]] {
            if run.q(2, 3) >= t.len() {
                r.push(Conf { threads: t, stale, bound: 1000 });
            }
        }
        for t in [vec![vec![Hold], vec![Hold], vec![Hold], vec![Hold]], vec![vec![Update], vec![Update], vec![Update], vec![Update]]] {
            r.push(Conf { threads: t, stale, bound: run.q(1, 2) });
        }
    }
    r
}

/// Another process which opens the storage, and waits until it is killed
pub fn holder(dir: &str) -> ! {
    match open(Path::new(dir)) {
        Ok(s) => {
            if let Err(e) = add(&s, "n") {
                println!("error {e}");
            }
            // sync is in the background
            println!("opened");
            let _ = std::io::Read::read(&mut std::io::stdin(), &mut [0]);
            std::mem::forget(s);
            std::process::exit(0)
        }
        Err(e) => {
            println!("error {e}");
            std::process::exit(1)
        }
    }
}

fn processes() -> Result<(), String> {
    let dir = tmpdir("procs");
    let db = dir.path().join("db");
    for i in 0..3 {
        let mut c = es(std::process::Command::new(es(std::env::current_exe(), "exe")?).arg("--hold").arg(&db).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn(), "spawn")?;
        let mut line = String::new();
        es(std::io::BufRead::read_line(&mut std::io::BufReader::new(c.stdout.take().unwrap()), &mut line), "read")?;
        must!(line.trim() == "opened", "other process: {line}");
        let r = open(&db);
        let ok = r.is_ok();
        drop(r);
        if i != 1 {
            es(c.kill(), "kill")?;
        } else {
            drop(c.stdin.take());
        }
        es(c.wait(), "wait")?;
        must!(!ok, "opened while another process has it open");
        let s = open(&db).map_err(|e| format!("can not be opened after the other process ended: {e}"))?;
        must!(nodes(&s)?.len() == 1, "nodes after the other process ended");
    }
    Ok(())
}

pub fn check(run: &'static Run) {
    *run.rule.lock().unwrap() = "every schedule of two to four clients which open, use and close a storage up to two times, with up to the given number of deviations (and all of them for short programs), at the operations on the lock file, the locks and thread starts; no two have it open, failing to open it needs somebody else who has it, acknowledged updates are seen by the next one, and it can be opened at the end; distinct = distinct programs with results".into();
    run.case(|| "processes".into(), processes);
    crate::faultfs::ACTIVE_SCHED.store(1, std::sync::atomic::Ordering::SeqCst);
    let confs = configurations(run);
    run.note("programs", confs.len());
    let total = std::sync::atomic::AtomicU64::new(0);
    run.par_n(8, 1, confs.into_iter(), |conf| {
        run.case(
            || format!("{conf:?}"),
            || {
                let n = explore(|script| {
                    run.alive();
                    if run.time_up() {
                        return Ok(vec![]);
                    }
                    let (trace, steps, h) = one(&conf, script)?;
                    run.trans(steps);
                    run.state(&h);
                    Ok(trace)
                })?;
                total.fetch_add(n, std::sync::atomic::Ordering::SeqCst);
                Ok(())
            },
        );
    });
    run.note("diverged", DIVERGED.load(std::sync::atomic::Ordering::SeqCst));
    run.note("schedules", total.into_inner());
}
