//! C25: descriptions of a corpus (components, node and edge annotations, corpus information).
use crate::cs;
use crate::conc::copy_dir;
use crate::model::*;
use crate::run::*;
use crate::updates::{is_derived, no_skip};
use crate::{must, must_eq};
use graphannis::CorpusStorage;
use graphannis::corpusstorage::LoadStatus;
use graphannis::model::AnnotationComponentType;
use graphannis_core::graph::update::UpdateEvent;
use graphannis_core::types::{Annotation, Component};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::str::FromStr;

const TYPES: [&str; 7] = ["Coverage", "Dominance", "Pointing", "Ordering", "LeftToken", "RightToken", "PartOf"];

fn ty(t: &str) -> AnnotationComponentType {
    AnnotationComponentType::from_str(t).unwrap()
}
fn real(c: &Comp) -> Component<AnnotationComponentType> {
    Component::new(ty(&c.0), c.1.as_str().into(), c.2.as_str().into())
}
fn key(c: &Component<AnnotationComponentType>) -> Comp {
    (c.get_type().to_string(), c.layer.to_string(), c.name.to_string())
}

/// number of occurrences of each value of each key
type Hist = BTreeMap<Qn, BTreeMap<String, usize>>;
fn hist<'a>(labels: impl Iterator<Item = &'a Labels>) -> Hist {
    let mut r = Hist::new();
    for l in labels {
        for (k, v) in l {
            *r.entry(k.clone()).or_default().entry(v.clone()).or_default() += 1;
        }
    }
    r
}

fn check_annos(h: &Hist, f: &dyn Fn(bool, bool) -> Result<Vec<Annotation>, String>, what: &str) -> Result<(), String> {
    for most in [false, true] {
        let mut got: Vec<(Qn, String)> = f(false, most)?.into_iter().map(|a| (q(&a.key.ns, &a.key.name), a.val.to_string())).collect();
        got.sort();
        let exp: Vec<(Qn, String)> = h.keys().map(|k| (k.clone(), String::new())).collect();
        must_eq!(got, exp, "{what} without values (only_most_frequent {most})");
    }
    let mut got: Vec<(Qn, String)> = f(true, false)?.into_iter().map(|a| (q(&a.key.ns, &a.key.name), a.val.to_string())).collect();
    got.sort();
    let exp: Vec<(Qn, String)> = h.iter().flat_map(|(k, v)| v.keys().map(move |v| (k.clone(), v.clone()))).collect();
    must_eq!(got, exp, "{what} with all values");
    let mut got: Vec<(Qn, String)> = f(true, true)?.into_iter().map(|a| (q(&a.key.ns, &a.key.name), a.val.to_string())).collect();
    got.sort();
    must_eq!(got.iter().map(|x| &x.0).collect::<Vec<_>>(), h.keys().collect::<Vec<_>>(), "{what}, keys with the most frequent value");
    for (k, v) in &got {
        let max = h[k].values().max().copied().unwrap_or(0);
        must!(h[k].get(v) == Some(&max), "{what}: {v:?} is not the most frequent value of {k:?}: {:?}", h[k]);
    }
    Ok(())
}

/// Components without edges may remain listed, but only if they had edges at some time or always exist
struct Seen {
    default: BTreeSet<Comp>,
    seen: BTreeSet<Comp>,
}

fn check_all(run: &Run, s: &CorpusStorage, c: &str, m: &Model, seen: &mut Seen, what: &str) -> Result<(), String> {
    let mut calls = 0;
    let nonempty: BTreeSet<&Comp> = m.edges.iter().filter(|(_, e)| !e.is_empty()).map(|(c, _)| c).collect();
    seen.seen.extend(nonempty.iter().map(|c| (*c).clone()));
    let list = |t: Option<&str>, n: Option<&str>| -> Result<Vec<Comp>, String> {
        let mut v: Vec<Comp> = es(s.list_components(c, t.map(ty), n), "list_components")?.iter().map(key).collect();
        v.sort();
        Ok(v)
    };
    let all = list(None, None)?;
    let set: BTreeSet<&Comp> = all.iter().collect();
    must_eq!(set.len(), all.len(), "{what}: component listed twice: {all:?}");
    for x in &nonempty {
        must!(set.contains(x), "{what}: component {x:?} missing in {all:?}");
    }
    for x in &all {
        must!(seen.seen.contains(x) || seen.default.contains(x) || is_derived(&x.0, &x.1, &x.2), "{what}: component {x:?} never existed");
    }
    let names: BTreeSet<&str> = all.iter().map(|x| x.2.as_str()).chain(["", "zz", "annis"]).collect();
    for t in TYPES.iter().map(|t| Some(*t)).chain([None]) {
        for n in names.iter().map(|n| Some(*n)).chain([None]) {
            let exp: Vec<Comp> = all.iter().filter(|x| t.is_none_or(|t| t == x.0) && n.is_none_or(|n| n == x.2)).cloned().collect();
            must_eq!(list(t, n)?, exp, "{what}: components with type {t:?} and name {n:?}");
            calls += 1;
        }
    }
    check_annos(&hist(m.nodes.values()), &|a, b| es(s.list_node_annotations(c, a, b), "list_node_annotations"), &format!("{what}: node annotations"))?;
    let empty = BTreeMap::new();
    for x in all.iter().chain(nonempty.iter().copied()).chain([&comp("Pointing", "no", "such")]) {
        let es_ = m.edges.get(x).unwrap_or(&empty);
        check_annos(&hist(es_.values()), &|a, b| es(s.list_edge_annotations(c, &real(x), a, b), "list_edge_annotations"), &format!("{what}: edge annotations of {x:?}"))?;
        calls += 4;
    }
    run.trans(calls + 4);
    check_info(s, c, m, &all, None, what)
}

fn check_info(s: &CorpusStorage, c: &str, m: &Model, all: &[Comp], status: Option<&str>, what: &str) -> Result<(), String> {
    let i = es(s.info(c), "info")?;
    must_eq!(i.name.as_str(), c, "{what}: name in info");
    let listed = es(s.list(), "list")?;
    must_eq!(listed.iter().filter(|x| x.name == c).count(), 1, "{what}: list");
    let l = &listed.iter().find(|x| x.name == c).unwrap();
    must_eq!(format!("{:?}", l.load_status), format!("{:?}", i.load_status), "{what}: load status in list");
    must_eq!(l.graphstorages.len(), i.graphstorages.len(), "{what}: components in list");
    if let Some(st) = status {
        must_eq!(format!("{:?}", i.load_status), st, "{what}: load status");
    }
    if matches!(i.load_status, LoadStatus::NotLoaded) {
        must!(i.graphstorages.is_empty(), "{what}: components of a corpus which is not loaded");
        return Ok(());
    }
    let mut got: Vec<Comp> = i.graphstorages.iter().map(|g| key(&g.component)).collect();
    got.sort();
    must_eq!(got.as_slice(), all, "{what}: components in info");
    let mut loaded = true;
    for g in &i.graphstorages {
        if matches!(g.load_status, LoadStatus::FullyLoaded) {
            must!(!g.implementation.is_empty(), "{what}: no implementation for {:?}", g.component);
            let k = key(&g.component);
            if !is_derived(&k.0, &k.1, &k.2) {
                let n: usize = m.edges.get(&k).map(|e| e.values().map(|l| l.len()).sum()).unwrap_or(0);
                must_eq!(g.number_of_annotations, n, "{what}: number of annotations of {k:?}");
            }
        } else {
            loaded = false;
            must_eq!(g.number_of_annotations, 0, "{what}: annotations of a component which is not loaded");
        }
    }
    must_eq!(matches!(i.load_status, LoadStatus::FullyLoaded), loaded, "{what}: corpus is fully loaded");
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum St {
    Ev(usize),
    Unload,
    Preload,
    Reopen,
    Opt(bool),
}
use St::*;

fn alphabet() -> Vec<UpdateEvent> {
    let p = comp("Pointing", "", "x");
    let d = comp("Dominance", "lay", "y");
    vec![
        add_node("d", "other"),
        del_node("a"),
        del_node("b"),
        add_label("a", "ns", "k", "2"),
        add_label("c", "ns", "k", "2"),
        del_label("a", "ns", "k"),
        del_label("b", "ns", "k"),
        add_label("a", "", "new", ""),
        add_label("c", "annis", "tok", "t"),
        add_edge("a", "c", &p),
        add_edge("a", "c", &comp("Pointing", "lay", "x")),
        add_edge("a", "c", &comp("Coverage", "", "")),
        add_edge("a", "c", &comp("PartOf", "q", "z")),
        del_edge("a", "b", &p),
        del_edge("b", "c", &p),
        del_edge("a", "b", &d),
        add_elabel("a", "b", &p, "n", "l", "2"),
        add_elabel("b", "c", &p, "n", "l", "2"),
        del_elabel("a", "b", &p, "n", "l"),
        add_elabel("a", "b", &d, "", "l", "1"),
        del_elabel("b", "c", &p, "n", "l"),
    ]
}

fn filled() -> Vec<UpdateEvent> {
    let p = comp("Pointing", "", "x");
    let d = comp("Dominance", "lay", "y");
    vec![
        add_node("a", "node"),
        add_node("b", "node"),
        add_node("c", "node"),
        add_label("a", "ns", "k", "1"),
        add_label("b", "ns", "k", "1"),
        add_edge("a", "b", &p),
        add_edge("b", "c", &p),
        add_edge("a", "b", &d),
        add_elabel("a", "b", &p, "n", "l", "1"),
        add_elabel("b", "c", &p, "n", "l", "1"),
    ]
}

fn defaults() -> Result<BTreeSet<Comp>, String> {
    let dir = tmpdir("descr");
    let s = cs::open(dir.path(), false)?;
    es(s.create_empty_corpus("c", false), "create")?;
    Ok(es(s.list_components("c", None, None), "list_components")?.iter().map(key).collect())
}

fn history(run: &Run, template: &Path, start: &[UpdateEvent], h: &[St], default: &BTreeSet<Comp>) -> Result<(), String> {
    let evs = alphabet();
    let dir = tmpdir("descr");
    es(copy_dir(template, dir.path()), "copy")?;
    let mut s = cs::open(dir.path(), false)?;
    let mut m = Model::default();
    let valid = |t: &str| AnnotationComponentType::from_str(t).is_ok();
    let mut seen = Seen { default: default.clone(), seen: BTreeSet::new() };
    let note = |m: &Model, seen: &mut Seen| seen.seen.extend(m.edges.iter().filter(|(_, e)| !e.is_empty()).map(|(c, _)| c.clone()));
    for e in start {
        m.apply(e, &valid);
    }
    note(&m, &mut seen);
    must_eq!(es(s.list(), "list")?.len(), 1, "list at start");
    for (i, x) in h.iter().enumerate() {
        let mut status = None;
        match x {
            Ev(k) => {
                es(s.apply_update("c", &mut update(&evs[*k..=*k])?), "apply_update")?;
                m.apply(&evs[*k], &valid);
                status = Some("FullyLoaded");
            }
            Unload => {
                // has no effect as long as a background writer uses the corpus
                es(s.unload("c"), "unload")?;
            }
            Preload => {
                es(s.preload("c"), "preload")?;
                status = Some("FullyLoaded");
            }
            Opt(disk) => es(s.reoptimize_implementation("c", *disk), "reoptimize")?,
            Reopen => {
                drop(s);
                s = cs::open(dir.path(), false)?;
                status = Some("NotLoaded");
            }
        }
        note(&m, &mut seen);
        if i + 1 == h.len() {
            if let Some(st) = status {
                let all: Vec<Comp> = {
                    let mut v: Vec<Comp> = vec![];
                    if st != "NotLoaded" {
                        v = es(s.list_components("c", None, None), "list_components")?.iter().map(key).collect();
                        v.sort();
                    }
                    v
                };
                check_info(&s, "c", &m, &all, Some(st), &format!("directly after {x:?}"))?;
            }
            check_all(run, &s, "c", &m, &mut seen, "at the end")?;
            es(s.preload("c"), "preload")?;
            check_all(run, &s, "c", &m, &mut seen, "after loading all")?;
            drop(s);
            s = cs::open(dir.path(), false)?;
            check_all(run, &s, "c", &m, &mut seen, "after reopening")?;
        }
    }
    run.state(&(m, h.last().copied()));
    Ok(())
}

pub fn check(run: &'static Run) {
    *run.rule.lock().unwrap() = "every history up to the depth over update events, unloading, preloading, reopening and optimizing a corpus of both variants; every assignment of values to the node and edge labels of four nodes and edges; all corpora of the query checks. After each: components for every filter, node and edge annotations in all four modes, corpus information, compared with the model, also when loaded completely and after reopening. distinct = distinct contents with the last step".into();
    let default = match defaults() {
        Ok(d) => d,
        Err(e) => return run.violation("defaults", &e),
    };
    let n = alphabet().len();
    let all: Vec<St> = (0..n).map(Ev).chain([Unload, Preload, Reopen, Opt(false), Opt(true)]).collect();
    let mut hs: Vec<Vec<St>> = vec![vec![]];
    for a in &all {
        hs.push(vec![*a]);
        for b in &all {
            hs.push(vec![*a, *b]);
            if run.q(false, true) || (matches!(a, Ev(_)) && !matches!(b, Ev(_))) {
                for c in &all {
                    hs.push(vec![*a, *b, *c]);
                }
            }
        }
    }
    hs.retain(|h| !h.is_empty());
    run.note("histories", hs.len());
    let dirs = tmpdir("descr");
    let starts = [("empty", vec![]), ("filled", filled())];
    for (name, evs) in &starts {
        for disk in [false, true] {
            let r = guarded(|| {
                let s = cs::open(&dirs.path().join(format!("{name}{disk}")), false)?;
                cs::create(&s, "c", evs, disk)
            });
            if let Err(e) = r {
                return run.violation(&format!("start {name} {disk}"), &e);
            }
        }
    }
    let mut confs = vec![];
    for (i, _) in starts.iter().enumerate() {
        for disk in [false, true] {
            for h in &hs {
                confs.push((i, disk, h.clone()));
            }
        }
    }
    run.par_n(8, 8, confs.into_iter(), |(i, disk, h)| {
        let (name, evs) = &starts[i];
        run.case(|| format!("{name} {} {h:?}", if disk { "disk" } else { "mem" }), || history(run, &dirs.path().join(format!("{name}{disk}")), evs, &h, &default));
    });
    // frequencies of values
    let vals: Vec<Option<&str>> = run.q(vec![None, Some(""), Some("a"), Some("b")], vec![None, Some(""), Some("a"), Some("b"), Some("ab")]);
    let mut freq = vec![];
    let k = vals.len();
    for x in 0..k.pow(4) {
        for disk in [false, true] {
            freq.push((disk, (0..4).map(|i| vals[x / k.pow(i) % k]).collect::<Vec<_>>()));
        }
    }
    run.par_n(8, 8, freq.into_iter(), |(disk, v)| {
        run.case(
            || format!("values {} {v:?}", if disk { "disk" } else { "mem" }),
            || {
                let dir = tmpdir("descr");
                let s = cs::open(dir.path(), false)?;
                let p = comp("Pointing", "", "x");
                let names = ["n0", "n1", "n2", "n3", "n4"];
                let mut evs: Vec<UpdateEvent> = names.iter().map(|n| add_node(n, "node")).collect();
                for i in 0..4 {
                    evs.push(add_edge(names[i], names[i + 1], &p));
                    if let Some(v) = v[i] {
                        evs.push(add_label(names[i], "n", "k", v));
                        evs.push(add_label(names[4 - i], "", "k", v));
                        evs.push(add_elabel(names[i], names[i + 1], &p, "n", "k", v));
                    }
                }
                let mut m = Model::default();
                for e in &evs {
                    m.apply(e, &|_| true);
                }
                cs::create(&s, "c", &evs, disk)?;
                let mut seen = Seen { default: default.clone(), seen: BTreeSet::new() };
                check_all(run, &s, "c", &m, &mut seen, "after creating")?;
                // remove the first value again
                let ev = [del_label(names[0], "n", "k"), del_elabel(names[0], names[1], &p, "n", "k"), add_label(names[1], "n", "k", "a")];
                for e in &ev {
                    m.apply(e, &|_| true);
                }
                es(s.apply_update("c", &mut update(&ev)?), "apply_update")?;
                check_all(run, &s, "c", &m, &mut seen, "after removing one")?;
                run.state(&m);
                Ok(())
            },
        );
    });
    for e in cs::entries() {
        for disk in [false, true] {
            run.case(
                || format!("corpus {} {}", e.name, if disk { "disk" } else { "mem" }),
                || {
                    let dir = tmpdir("descr");
                    let mut m = Model::default();
                    for x in &e.evs {
                        m.apply(x, &|_| true);
                    }
                    let s = cs::open(dir.path(), false)?;
                    cs::create(&s, e.name, &e.evs, disk)?;
                    let mut seen = Seen { default: default.clone(), seen: BTreeSet::new() };
                    check_all(run, &s, e.name, &m, &mut seen, "after creating")?;
                    es(s.reoptimize_implementation(e.name, disk), "reoptimize")?;
                    check_all(run, &s, e.name, &m, &mut seen, "optimized")?;
                    drop(s);
                    let s = cs::open(dir.path(), false)?;
                    check_all(run, &s, e.name, &m, &mut seen, "reopened")
                },
            );
        }
    }
    // the graph itself answers with filters
    run.par_n(8, 1, (0..1u32 << 9).collect::<Vec<_>>().into_iter(), |bits| {
        run.case(
            || format!("components {bits}"),
            || {
                let mut g = es(graphannis::AnnotationGraph::with_default_graphstorages(false), "new")?;
                let mut base: Vec<Comp> = g.get_all_components(None, None).iter().map(key).collect();
                base.push(comp("Coverage", "annis", "inherited-coverage"));
                let mut evs = vec![add_node("a", "node"), add_node("b", "node")];
                let mut all = BTreeSet::new();
                let cs: Vec<Comp> = [("Coverage", "l", "x"), ("Pointing", "", "x"), ("Pointing", "l", ""), ("Pointing", "l", "x"), ("Pointing", "l", "y"), ("Pointing", "m", "x"), ("Pointing", "z", "w"), ("Dominance", "l", "x"), ("PartOf", "", "x")].iter().map(|(t, l, n)| comp(t, l, n)).collect();
                for (i, c) in cs.iter().enumerate() {
                    if bits >> i & 1 == 1 {
                        evs.push(add_edge("a", "b", c));
                        all.insert(c.clone());
                    }
                }
                es(g.apply_update(&mut update(&evs)?, |_| {}), "apply_update")?;
                for t in TYPES.iter().map(|t| Some(*t)).chain([None]) {
                    for n in [None, Some(""), Some("x"), Some("y"), Some("w"), Some("xy")] {
                        let got: Vec<Comp> = g.get_all_components(t.map(ty), n).iter().map(key).collect();
                        let exp: BTreeSet<Comp> = all.iter().chain(&base).filter(|x| t.is_none_or(|t| t == x.0) && n.is_none_or(|n| n == x.2)).cloned().collect();
                        let set: BTreeSet<Comp> = got.iter().cloned().collect();
                        must_eq!(set, exp, "components with type {t:?} and name {n:?}");
                        must_eq!(got.len(), exp.len(), "components with type {t:?} and name {n:?} listed several times");
                    }
                }
                let m = dump(&g, &no_skip)?;
                run.state(&m);
                Ok(())
            },
        );
    });
}
