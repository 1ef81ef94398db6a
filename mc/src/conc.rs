//! C14: concurrent calls of one corpus storage.
use crate::cs;
use crate::model::*;
use crate::run::*;
use crate::sched::*;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::{CacheStrategy, ExportFormat, ImportFormat, ResultOrder};
use graphannis::errors::GraphAnnisError;
use graphannis_core::graph::update::UpdateEvent;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum O {
    Update(u8),
    Query,
    Plan,
    Freq,
    Unload,
    Preload,
    Delete,
    Create,
    List,
    Info,
    Comps,
    Over,
    New,
    Export,
    Reopt,
    /// query of another corpus
    Other,
    UpdateOther(u8),
    Both,
}
use O::*;

/// corpora with the nodes that have an edge to "y"
type World = BTreeMap<String, BTreeSet<String>>;

pub fn events(n: &str) -> Vec<UpdateEvent> {
    let p = comp("Pointing", "x", "p");
    vec![add_node("y", "node"), add_node(n, "node"), add_label(n, "n", "l", "v"), add_edge(n, "y", &p)]
}

const NONE: &str = "no such corpus";

fn query_result(w: &World, cs: &[&str]) -> String {
    let mut r = vec![];
    for c in cs {
        match w.get(*c) {
            None => return NONE.into(),
            Some(s) => r.extend(s.iter().map(|n| format!("n::l::{n} y"))),
        }
    }
    format!("{r:?}")
}

/// the sequential meaning
fn step(w: &mut World, o: O) -> String {
    let known = |w: &World| if w.contains_key("c") { "ok".to_string() } else { NONE.into() };
    match o {
        Update(k) => {
            w.entry("c".into()).or_default().insert(format!("u{k}"));
            "ok".into()
        }
        UpdateOther(k) => {
            w.entry("d".into()).or_default().insert(format!("u{k}"));
            "ok".into()
        }
        Query => query_result(w, &["c"]),
        Other => query_result(w, &["d"]),
        Both => query_result(w, &["c", "d"]),
        Freq => match w.get("c") {
            None => NONE.into(),
            Some(s) => s.len().to_string(),
        },
        Plan | Preload | Reopt => known(w),
        Info => "c".into(),
        // a corpus that does not exist has no components
        Comps => w.get("c").map(|s| !s.is_empty()).unwrap_or(false).to_string(),
        Unload => "ok".into(),
        Delete => w.remove("c").is_some().to_string(),
        Create => {
            let new = !w.contains_key("c");
            w.entry("c".into()).or_default();
            new.to_string()
        }
        List => format!("{:?}", w.keys().collect::<Vec<_>>()),
        Over => {
            w.insert("c".into(), BTreeSet::from(["i".to_string()]));
            "c".into()
        }
        New => {
            if w.contains_key("c") {
                "exists".into()
            } else {
                w.insert("c".into(), BTreeSet::from(["i".to_string()]));
                "c".into()
            }
        }
        Export => match w.get("c") {
            None => NONE.into(),
            Some(s) => format!("{s:?}"),
        },
    }
}

fn res<T>(r: Result<T, GraphAnnisError>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(x) => f(x),
        Err(GraphAnnisError::NoSuchCorpus(_)) => NONE.into(),
        Err(GraphAnnisError::CorpusExists(_)) => "exists".into(),
        Err(e) => format!("error: {e}"),
    }
}

const Q: &str = "n:l=\"v\" ->p node";

fn find(s: &CorpusStorage, names: &[&str]) -> String {
    res(s.find(cs::query(names, Q), 0, None, ResultOrder::Normal), |mut v| {
        if names.len() == 1 {
            v.sort();
        }
        format!("{v:?}")
    })
}

fn call(s: &CorpusStorage, o: O, dir: &Path, me: usize) -> String {
    let ok = |_: ()| "ok".to_string();
    match o {
        Update(k) => res(s.apply_update("c", &mut update(&events(&format!("u{k}"))).unwrap()), ok),
        UpdateOther(k) => res(s.apply_update("d", &mut update(&events(&format!("u{k}"))).unwrap()), ok),
        Query => find(s, &["c"]),
        Other => find(s, &["d"]),
        Both => find(s, &["c", "d"]),
        Plan => res(s.plan(&["c"], Q, graphannis::corpusstorage::QueryLanguage::AQL), |_| "ok".into()),
        Freq => res(s.count(cs::query(&["c"], Q)), |n| n.to_string()),
        Unload => res(s.unload("c"), ok),
        Preload => res(s.preload("c"), ok),
        Delete => res(s.delete("c"), |b| b.to_string()),
        Create => res(s.create_empty_corpus("c", false), |b| b.to_string()),
        List => res(s.list(), |l| {
            let mut l: Vec<String> = l.into_iter().map(|i| i.name).collect();
            l.sort();
            format!("{l:?}")
        }),
        Info => res(s.info("c"), |i| i.name),
        Comps => res(s.list_components("c", None, Some("p")), |l| (!l.is_empty()).to_string()),
        Over => res(s.import_from_fs(&dir.join("c.graphml"), ImportFormat::GraphML, None, false, true, |_| {}), |n| n),
        New => res(s.import_from_fs(&dir.join("c.graphml"), ImportFormat::GraphML, None, false, false, |_| {}), |n| n),
        Export => {
            let f = dir.join(format!("export{me}.graphml"));
            let r = res(s.export_to_fs(&["c"], &f, ExportFormat::GraphML), ok);
            if r != "ok" {
                return r;
            }
            let text = std::fs::read_to_string(&f).unwrap_or_default();
            let mut found = BTreeSet::new();
            for n in ["x", "i", "u1", "u2", "u3"] {
                if text.contains(&format!("source=\"{n}\" target=\"y\"")) {
                    found.insert(n.to_string());
                }
            }
            format!("{found:?}")
        }
        Reopt => res(s.reoptimize_implementation("c", false), ok),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Conf {
    /// "cold": corpora exist and are not loaded, "warm": loaded, "none": the corpora do not exist,
    /// "tiny": cold, with a cache that is always full
    start: &'static str,
    disk: bool,
    threads: Vec<Vec<O>>,
    bound: usize,
    fs: bool,
}

struct Call {
    thread: usize,
    op: O,
    from: u64,
    to: u64,
    result: String,
}

/// Is there a sequential order which explains the results and the final state? An update of a
/// corpus that does not exist creates it first (as `create_empty_corpus` would do) and is applied
/// to it afterwards.
fn explained(w: &World, calls: &[Call], done: u32, created: u32, fin: &World) -> bool {
    if done.count_ones() as usize == calls.len() {
        return w == fin;
    }
    for (i, c) in calls.iter().enumerate() {
        if done & 1 << i != 0 {
            continue;
        }
        if calls.iter().enumerate().any(|(j, d)| done & 1 << j == 0 && i != j && d.to < c.from) {
            continue;
        }
        let name = match c.op {
            Update(_) => Some("c"),
            UpdateOther(_) => Some("d"),
            _ => None,
        };
        if let Some(n) = name
            && created & 1 << i == 0
            && !w.contains_key(n)
        {
            let mut w2 = w.clone();
            w2.insert(n.into(), BTreeSet::new());
            if explained(&w2, calls, done, created | 1 << i, fin) {
                return true;
            }
        }
        let mut w2 = w.clone();
        if step(&mut w2, c.op) == c.result && explained(&w2, calls, done | 1 << i, created, fin) {
            return true;
        }
    }
    false
}

pub fn copy_dir(a: &Path, b: &Path) -> std::io::Result<()> {
    std::fs::create_dir_all(b)?;
    for e in std::fs::read_dir(a)? {
        let e = e?;
        let to = b.join(e.file_name());
        if e.file_type()?.is_dir() {
            copy_dir(&e.path(), &to)?;
        } else {
            std::fs::copy(e.path(), to)?;
        }
    }
    Ok(())
}

struct Templates {
    mem: PathBuf,
    disk: PathBuf,
    import: PathBuf,
    _dir: tempfile::TempDir,
}

fn templates() -> Result<Templates, String> {
    let dir = tmpdir("tmpl");
    let t = Templates { mem: dir.path().join("mem"), disk: dir.path().join("disk"), import: dir.path().join("c.graphml"), _dir: dir };
    for (p, disk) in [(&t.mem, false), (&t.disk, true)] {
        let s = cs::open(p, false)?;
        for c in ["c", "d"] {
            cs::create(&s, c, &events("x"), disk)?;
        }
    }
    let p = t._dir.path().join("i");
    let s = cs::open(&p, false)?;
    cs::create(&s, "c", &events("i"), false)?;
    es(s.export_to_fs(&["c"], &t.import, ExportFormat::GraphML), "export")?;
    Ok(t)
}

fn observed(s: &CorpusStorage) -> Result<World, String> {
    let mut w = World::new();
    for i in es(s.list(), "list")? {
        let v = es(s.find(cs::query(&[&i.name], Q), 0, None, ResultOrder::Normal), "find")?;
        w.insert(i.name.clone(), v.iter().map(|x| x.trim_start_matches("n::l::").trim_end_matches(" y").to_string()).collect());
    }
    Ok(w)
}

fn one(conf: &Conf, t: &Templates, script: Vec<usize>) -> Result<(Vec<Point>, u64, String), String> {
    // the name marks the directory for the interposed file system functions
    let dir = tmpdir("mcdb");
    let db = dir.path().join("db");
    let mut w = World::new();
    if conf.start != "none" {
        es(copy_dir(if conf.disk { &t.disk } else { &t.mem }, &db), "copy")?;
        for c in ["c", "d"] {
            w.insert(c.into(), BTreeSet::from(["x".to_string()]));
        }
    }
    es(std::fs::copy(&t.import, dir.path().join("c.graphml")), "copy")?;
    let size = if conf.start == "tiny" { 0 } else { 4000 };
    let s = Arc::new(es(CorpusStorage::with_cache_strategy(&db, CacheStrategy::FixedMaxMemory(size), false), "open")?);
    if conf.start == "warm" {
        es(s.preload("c"), "preload")?;
        es(s.preload("d"), "preload")?;
    }
    let sched = Sched::new(script.clone(), conf.bound, conf.fs);
    let calls: Arc<Mutex<Vec<Call>>> = Default::default();
    let mut fs: Vec<Box<dyn FnOnce(usize) + Send>> = vec![];
    for ops in &conf.threads {
        let (s, sched, calls, ops, dir) = (s.clone(), sched.clone(), calls.clone(), ops.clone(), dir.path().to_path_buf());
        fs.push(Box::new(move |me| {
            for (i, op) in ops.into_iter().enumerate() {
                if i > 0 {
                    sched.step(me);
                }
                let from = sched.now();
                let result = match guarded(|| Ok(call(&s, op, &dir, me))) {
                    Ok(r) => r,
                    Err(e) => format!("crash: {e}"),
                };
                let to = sched.now();
                calls.lock().unwrap().push(Call { thread: me, op, from, to, result });
            }
            // if the scheduler stopped this thread, the storage can not be closed
            std::mem::forget(s);
        }));
    }
    let last = Arc::new(Mutex::new(String::new()));
    let out = {
        let (s, last) = (s.clone(), last.clone());
        sched.run(
            fs,
            Box::new(move |_| {
                // close the storage while its background threads are still running
                let p = Arc::into_raw(s);
                let r = guarded(|| {
                    unsafe { std::ptr::drop_in_place(p as *mut CorpusStorage) };
                    Ok(())
                });
                *last.lock().unwrap() = r.err().unwrap_or_default();
            }),
        )
    };
    // the content has been dropped above
    std::mem::forget(s);
    let show = |calls: &[Call]| calls.iter().map(|c| format!("thread {} {:?}@{}-{} = {}", c.thread, c.op, c.from, c.to, c.result)).collect::<Vec<_>>().join("; ");
    let sched_txt = format!("schedule {:?}", out.trace.iter().map(|p| p.chosen).collect::<Vec<_>>());
    if let Some(d) = out.dead {
        return Err(format!("{d} ({}) {sched_txt}", show(&calls.lock().unwrap())));
    }
    let mut calls = std::mem::take(&mut *calls.lock().unwrap());
    calls.sort_by_key(|c| (c.from, c.thread));
    let e = last.lock().unwrap().clone();
    if !e.is_empty() {
        return Err(format!("closing: {e} ({}) {sched_txt}", show(&calls)));
    }
    let fin = cs::open(&db, false).and_then(|s| observed(&s)).map_err(|e| format!("after reopening: {e} ({}) {sched_txt}", show(&calls)))?;
    if !explained(&w, &calls, 0, 0, &fin) {
        return Err(format!("no sequential order explains {}, reopened: {fin:?} ({sched_txt})", show(&calls)));
    }
    let h = format!("{conf:?}{:?}", calls.iter().map(|c| (c.thread, &c.result)).collect::<Vec<_>>());
    Ok((out.trace, out.steps, h))
}

fn configurations(run: &Run) -> Vec<Conf> {
    let mut r = vec![];
    let all = [Update(2), Query, Freq, Plan, Unload, Preload, Delete, Create, List, Info, Comps, Over, New, Export, Reopt];
    let mut add = |start: &'static str, disk: bool, threads: Vec<Vec<O>>, bound: usize, fs: bool| r.push(Conf { start, disk, threads, bound, fs });
    for start in ["cold", "warm", "none"] {
        for (i, a) in all.iter().enumerate() {
            for b in &all[i..] {
                let a = if *a == Update(2) { Update(1) } else { *a };
                add(start, false, vec![vec![a], vec![*b]], run.q(2, 3), false);
            }
        }
    }
    // a background writer is active
    for start in ["warm", "none"] {
        for a in all {
            for b in all {
                add(start, false, vec![vec![Update(1), a], vec![b]], run.q(1, 2), false);
            }
        }
    }
    // eviction
    for a in [Query, Update(1), Preload, Export] {
        for b in [Other, UpdateOther(1), Both] {
            add("tiny", false, vec![vec![a, Other], vec![b, Query]], run.q(1, 2), false);
            add("tiny", false, vec![vec![Update(2), UpdateOther(2), a], vec![b]], run.q(1, 2), false);
        }
    }
    // three threads
    let few = [Update(1), Query, Unload, Delete, Over, Create, Comps];
    for start in ["cold", "none"] {
        for (i, a) in few.iter().enumerate() {
            for (j, b) in few.iter().enumerate().skip(i) {
                for c in &few[j..] {
                    let other = |o: &O, k| if *o == Update(1) { Update(k) } else { *o };
                    add(start, false, vec![vec![*a], vec![other(b, 2)], vec![other(c, 3)]], run.q(1, 2), false);
                }
            }
        }
    }
    // file system operations of a background writer or deletion and of others interleave
    for disk in [false, true] {
        for start in ["cold", "warm"] {
            for a in [Unload, Delete, Over, Query, List] {
                for b in [Query, Update(2), Create, Over, New, List, Delete] {
                    add(start, disk, vec![vec![Update(1), a], vec![b]], run.q(1, 2), true);
                }
            }
        }
        for b in [Query, Other, Update(1), Over] {
            add("tiny", disk, vec![vec![Update(2), Other], vec![b]], run.q(1, 2), true);
        }
    }
    r
}

pub fn check(run: &'static Run) {
    *run.rule.lock().unwrap() = "every schedule of the listed programs (two or three threads with one or two calls each, the background writers and closing the storage) with up to the given number of deviations from running each thread as long as possible, at operations on locks, condition variables, thread starts and file system operations; the results must be those of a sequential order that respects the real-time order, as must the content after reopening; distinct = distinct programs with results".into();
    crate::faultfs::ACTIVE_SCHED.store(1, std::sync::atomic::Ordering::SeqCst);
    let t = match templates() {
        Ok(t) => t,
        Err(e) => return run.violation("templates", &e),
    };
    let confs = configurations(run);
    run.note("programs", confs.len());
    let total = std::sync::atomic::AtomicU64::new(0);
    run.par_n(8, 1, confs.into_iter(), |conf| {
        run.case(
            || format!("{conf:?}"),
            || {
                let n = explore(|script| {
                    run.alive();
                    if run.time_up() {
                        return Ok(vec![]);
                    }
                    let (trace, steps, h) = one(&conf, &t, script)?;
                    run.trans(steps);
                    run.state(&h);
                    Ok(trace)
                })?;
                total.fetch_add(n, std::sync::atomic::Ordering::SeqCst);
                Ok(())
            },
        );
    });
    run.note("diverged", DIVERGED.load(std::sync::atomic::Ordering::SeqCst));
    run.note("schedules", total.into_inner());
}
