//! C15: loading, unloading, eviction and requests for unknown corpora are invisible.
use crate::conc::{copy_dir, events};
use crate::cs;
use crate::model::*;
use crate::must_eq;
use crate::run::*;
use crate::sched::*;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::{CacheStrategy, ExportFormat, ImportFormat, ResultOrder};
use graphannis::errors::GraphAnnisError;
use graphannis::model::AnnotationComponentType;
use graphannis_core::types::Component;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum K {
    Update(u8),
    Create(bool),
    Delete,
    New,
    Over,
    Unload,
    Preload,
    Reopt(bool),
    Query,
    Count,
    Extra,
    Info,
    List,
    Comps,
    NodeAnnos,
    EdgeAnnos,
    Export,
    Sub,
    Both,
}
use K::*;
type O = (K, &'static str);
type World = BTreeMap<String, BTreeSet<String>>;

const Q: &str = "n:l=\"v\" ->p node";
const NONE: &str = "no such corpus";

fn step(w: &mut World, (k, c): O) -> String {
    let content = |w: &World, f: &dyn Fn(&BTreeSet<String>) -> String| w.get(c).map(f).unwrap_or(NONE.into());
    match k {
        Update(n) => {
            w.entry(c.into()).or_default().insert(format!("u{n}"));
            "ok".into()
        }
        Create(_) => {
            let new = !w.contains_key(c);
            w.entry(c.into()).or_default();
            new.to_string()
        }
        Delete => w.remove(c).is_some().to_string(),
        New if w.contains_key(c) => "exists".into(),
        New | Over => {
            w.insert(c.into(), BTreeSet::from(["i".to_string()]));
            c.into()
        }
        Unload => "ok".into(),
        Preload | Reopt(_) => content(w, &|_| "ok".into()),
        Query => content(w, &|s| format!("{:?}", s.iter().map(|n| format!("n::l::{n} y")).collect::<Vec<_>>())),
        Count => content(w, &|s| s.len().to_string()),
        Extra => content(w, &|s| format!("{} 0", s.len())),
        Info => c.into(),
        List => format!("{:?}", w.keys().collect::<Vec<_>>()),
        Comps => w.get(c).map(|s| !s.is_empty()).unwrap_or(false).to_string(),
        NodeAnnos => {
            let mut r = vec![];
            if let Some(s) = w.get(c)
                && !s.is_empty()
            {
                for n in s.iter().map(|s| s.as_str()).chain(["y"]) {
                    r.push(format!("annis::node_name={n}"));
                }
                r.push("annis::node_type=node".into());
                r.push("n::l=v".into());
            }
            format!("{r:?}")
        }
        EdgeAnnos => if w.get(c).is_some_and(|s| !s.is_empty()) { "[\"n::e=w\"]" } else { "[]" }.into(),
        Export => content(w, &|s| format!("{s:?}")),
        Sub => content(w, &|s| format!("{:?}", s.iter().map(|x| x.as_str()).chain(if s.is_empty() { None } else { Some("y") }).collect::<Vec<_>>())),
        Both => match (w.get("c"), w.get("d")) {
            (Some(a), Some(b)) => (a.len() + b.len()).to_string(),
            _ => NONE.into(),
        },
    }
}

fn res<T>(r: Result<T, GraphAnnisError>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(x) => f(x),
        Err(GraphAnnisError::NoSuchCorpus(_)) => NONE.into(),
        Err(GraphAnnisError::CorpusExists(_)) => "exists".into(),
        Err(e) => format!("error: {e}"),
    }
}

fn annos(r: Vec<graphannis_core::types::Annotation>) -> String {
    let mut v: Vec<String> = r.into_iter().map(|a| format!("{}::{}={}", a.key.ns, a.key.name, a.val)).collect();
    v.sort();
    format!("{v:?}")
}

fn update_of(k: u8) -> Vec<graphannis_core::graph::update::UpdateEvent> {
    let n = format!("u{k}");
    let mut evs = events(&n);
    evs.push(add_elabel(&n, "y", &comp("Pointing", "x", "p"), "n", "e", "w"));
    evs
}

fn call(s: &CorpusStorage, (k, c): O, dir: &Path) -> String {
    let ok = |_: ()| "ok".to_string();
    match k {
        Update(n) => res(s.apply_update(c, &mut update(&update_of(n)).unwrap()), ok),
        Create(disk) => res(s.create_empty_corpus(c, disk), |b| b.to_string()),
        Delete => res(s.delete(c), |b| b.to_string()),
        New => res(s.import_from_fs(&dir.join("i.graphml"), ImportFormat::GraphML, Some(c.into()), false, false, |_| {}), |n| n),
        Over => res(s.import_from_fs(&dir.join("i.graphml"), ImportFormat::GraphML, Some(c.into()), true, true, |_| {}), |n| n),
        Unload => res(s.unload(c), ok),
        Preload => res(s.preload(c), ok),
        Reopt(disk) => res(s.reoptimize_implementation(c, disk), ok),
        Query => res(s.find(cs::query(&[c], Q), 0, None, ResultOrder::Normal), |mut v| {
            v.sort();
            format!("{v:?}")
        }),
        Count => res(s.count(cs::query(&[c], Q)), |n| n.to_string()),
        Extra => res(s.count_extra(cs::query(&[c], Q)), |n| format!("{} {}", n.match_count, n.document_count)),
        Both => res(s.count(cs::query(&["c", "d"], Q)), |n| n.to_string()),
        Info => res(s.info(c), |i| i.name),
        List => res(s.list(), |l| {
            let mut l: Vec<String> = l.into_iter().map(|i| i.name).collect();
            l.sort();
            format!("{l:?}")
        }),
        Comps => res(s.list_components(c, None, Some("p")), |l| (!l.is_empty()).to_string()),
        NodeAnnos => res(s.list_node_annotations(c, true, false), annos),
        EdgeAnnos => res(s.list_edge_annotations(c, &Component::new(AnnotationComponentType::Pointing, "x".into(), "p".into()), true, false), annos),
        Export => {
            let f = dir.join("export.graphml");
            let r = res(s.export_to_fs(&[c], &f, ExportFormat::GraphML), ok);
            if r != "ok" {
                return r;
            }
            let text = std::fs::read_to_string(&f).unwrap_or_default();
            let found: BTreeSet<&str> = ["x", "i", "u1", "u2"].into_iter().filter(|n| text.contains(&format!("source=\"{n}\" target=\"y\""))).collect();
            format!("{found:?}")
        }
        Sub => res(s.subgraph_for_query(c, "node", graphannis::corpusstorage::QueryLanguage::AQL, None), |g| match dump(&g, &crate::updates::no_skip) {
            Ok(m) => format!("{:?}", m.nodes.keys().collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>()),
            Err(e) => e,
        }),
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Conf {
    /// "none", "mem", "disk": variant of the corpora c and d which exist at the beginning
    start: &'static str,
    cache: &'static str,
    ops: Vec<O>,
}

const ALL: [O; 14] = [(List, "c"), (Info, "c"), (Comps, "c"), (Query, "c"), (Count, "d"), (Query, "d"), (NodeAnnos, "c"), (EdgeAnnos, "c"), (Export, "c"), (Extra, "c"), (Sub, "c"), (Comps, "d"), (Both, "c"), (List, "c")];

pub struct Templates {
    dir: tempfile::TempDir,
}

fn templates() -> Result<Templates, String> {
    let dir = tmpdir("life");
    for (n, disk) in [("mem", false), ("disk", true)] {
        let s = cs::open(&dir.path().join(n), false)?;
        for c in ["c", "d"] {
            let mut evs = events("x");
            evs.push(add_elabel("x", "y", &comp("Pointing", "x", "p"), "n", "e", "w"));
            cs::create(&s, c, &evs, disk)?;
        }
    }
    let s = cs::open(&dir.path().join("tmp"), false)?;
    let mut evs = events("i");
    evs.push(add_elabel("i", "y", &comp("Pointing", "x", "p"), "n", "e", "w"));
    cs::create(&s, "i", &evs, false)?;
    es(s.export_to_fs(&["i"], &dir.path().join("i.graphml"), ExportFormat::GraphML), "export")?;
    Ok(Templates { dir })
}

fn one(conf: &Conf, t: &Templates, script: Vec<usize>) -> Result<Vec<Point>, String> {
    let dir = tmpdir("life");
    let db: PathBuf = dir.path().join("db");
    let mut w = World::new();
    if conf.start != "none" {
        es(copy_dir(&t.dir.path().join(conf.start), &db), "copy")?;
        for c in ["c", "d"] {
            w.insert(c.into(), BTreeSet::from(["x".to_string()]));
        }
    }
    es(std::fs::copy(t.dir.path().join("i.graphml"), dir.path().join("i.graphml")), "copy")?;
    let strategy = match conf.cache {
        "big" => CacheStrategy::FixedMaxMemory(4000),
        "none" => CacheStrategy::FixedMaxMemory(0),
        "0%" => CacheStrategy::PercentOfFreeMemory(0.0),
        _ => CacheStrategy::PercentOfFreeMemory(100.0),
    };
    let s = Arc::new(es(CorpusStorage::with_cache_strategy(&db, strategy, false), "open")?);
    let sched = Sched::new(script, 0, false);
    let result: Arc<Mutex<Result<(), String>>> = Arc::new(Mutex::new(Err("not executed".into())));
    let expected: Vec<(O, String)> = conf.ops.iter().chain(&ALL).map(|o| (*o, step(&mut w, *o))).collect();
    let n = conf.ops.len();
    let client = {
        let (s, sched, result, dir) = (s.clone(), sched.clone(), result.clone(), dir.path().to_path_buf());
        Box::new(move |me: usize| {
            let r = guarded(|| {
                for (i, (o, e)) in expected.iter().enumerate() {
                    if i > 0 && i <= n {
                        sched.boundary(me);
                    }
                    must_eq!(&call(&s, *o, &dir), e, "result {i} of {o:?}{}", if i >= n { " at the end" } else { "" });
                }
                Ok(())
            });
            *result.lock().unwrap() = r;
            std::mem::forget(s);
        })
    };
    let closed = Arc::new(Mutex::new(String::new()));
    let out = {
        let (s, closed) = (s.clone(), closed.clone());
        sched.run(
            vec![client],
            Box::new(move |_| {
                let p = Arc::into_raw(s);
                let r = guarded(|| {
                    unsafe { std::ptr::drop_in_place(p as *mut CorpusStorage) };
                    Ok(())
                });
                *closed.lock().unwrap() = r.err().unwrap_or_default();
            }),
        )
    };
    std::mem::forget(s);
    let sched_txt = format!("schedule of background writers {:?}", out.trace.iter().map(|p| p.chosen).collect::<Vec<_>>());
    if let Some(d) = out.dead {
        return Err(format!("{d} {sched_txt}"));
    }
    result.lock().unwrap().clone().map_err(|e| format!("{e} ({sched_txt})"))?;
    let closed = closed.lock().unwrap().clone();
    must_eq!(closed.as_str(), "", "closing ({sched_txt})");
    let s = cs::open(&db, false)?;
    for o in [(List, "c"), (Comps, "c"), (Query, "c"), (Query, "d"), (NodeAnnos, "c"), (EdgeAnnos, "d")] {
        must_eq!(call(&s, o, dir.path()), step(&mut w, o), "{o:?} after reopening ({sched_txt})");
    }
    Ok(out.trace)
}

pub fn check(run: &'static Run) {
    *run.rule.lock().unwrap() = "every history up to the depth over creating, updating, deleting, importing, replacing, unloading, preloading, optimizing, querying, describing and exporting two corpora which exist or not, for each cache strategy, and every choice of running the pending background writers before each call; each result, all results at the end and after reopening compared with the model, in which loading does not exist; distinct = distinct contents with the last two calls".into();
    let t = match templates() {
        Ok(t) => t,
        Err(e) => return run.violation("templates", &e),
    };
    let change: Vec<O> = vec![(Update(1), "c"), (Create(false), "c"), (Create(true), "c"), (Delete, "c"), (New, "c"), (Over, "c"), (Unload, "c"), (Preload, "c"), (Reopt(false), "c"), (Reopt(true), "c")];
    let read: Vec<O> = vec![(Query, "c"), (Count, "c"), (Info, "c"), (List, "c"), (Comps, "c"), (NodeAnnos, "c"), (EdgeAnnos, "c"), (Export, "c"), (Sub, "c"), (Extra, "c")];
    let other: Vec<O> = vec![(Update(1), "d"), (Query, "d"), (Delete, "d"), (Unload, "d"), (Both, "c")];
    let mut confs: Vec<Conf> = vec![];
    let mut add = |start: &'static str, cache: &'static str, ops: Vec<O>| confs.push(Conf { start, cache, ops });
    let all: Vec<O> = change.iter().chain(&read).chain(&other).copied().collect();
    for (start, cache) in [("none", "big"), ("mem", "big"), ("none", "none"), ("mem", "none"), ("disk", "none"), ("mem", "0%"), ("mem", "100%")] {
        // everything twice
        for a in &all {
            add(start, cache, vec![*a]);
            for b in &all {
                add(start, cache, vec![*a, *b]);
            }
        }
        if cache.ends_with('%') && !run.q(false, true) {
            continue;
        }
        // longer histories: changes and some of the others
        let core: Vec<O> = change.iter().chain(&other[..run.q(2, 5)]).chain(&[read[0], read[4]]).copied().collect();
        for a in &core {
            for b in &core {
                for c in &core {
                    add(start, cache, vec![*a, *b, *c]);
                }
            }
        }
        // with an update as second and last call
        for a in &change {
            for b in &change {
                for c in run.q(&change[..4], &change[..]) {
                    add(start, cache, vec![*a, (Update(2), "c"), *b, *c]);
                }
            }
        }
    }
    run.note("histories", confs.len());
    let total = std::sync::atomic::AtomicU64::new(0);
    run.par_n(8, 4, confs.into_iter(), |conf| {
        run.case(
            || format!("{conf:?}"),
            || {
                let n = explore(|script| {
                    run.alive();
                    let trace = one(&conf, &t, script)?;
                    run.trans(conf.ops.len() as u64 + ALL.len() as u64);
                    Ok(trace)
                })?;
                let mut w = World::new();
                for o in &conf.ops {
                    step(&mut w, *o);
                }
                run.state(&(w, conf.start, conf.cache, conf.ops.iter().rev().take(2).collect::<Vec<_>>()));
                total.fetch_add(n, std::sync::atomic::Ordering::SeqCst);
                Ok(())
            },
        );
    });
    run.note("executions_with_background_choices", total.into_inner());
    run.assume("a background writer runs between two calls, or while a call waits; finer interleavings are the subject of C14");
}
