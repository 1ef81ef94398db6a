//! C03: saving, opening, importing, partial loading and background writing against reference graphs.
use crate::model::*;
use crate::run::*;
use crate::updates::{is_derived, no_skip};
use graphannis::model::AnnotationComponentType;
use graphannis_core::graph::Graph;
use graphannis_core::graph::update::UpdateEvent;
use graphannis_core::types::{ComponentType, DefaultComponentType};
use serde_json::json;
use std::str::FromStr;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Fresh(bool),
    Upd(u8),
    UpdKeep(u8),
    Opt(bool),
    Save(u8),
    Persist(u8),
    Open(u8),
    Import(u8),
    Sync,
    Load(u8),
    LoadAll,
}

fn ops() -> Vec<Op> {
    use Op::*;
    vec![Fresh(false), Fresh(true), Upd(0), Upd(1), Upd(2), UpdKeep(2), Opt(false), Opt(true), Save(0), Save(1), Persist(0), Persist(1), Open(0), Open(1), Import(0), Sync, Load(0), Load(1), LoadAll]
}

pub fn batch(i: u8, t1: &str, t2: &str) -> Vec<UpdateEvent> {
    let x = comp(t1, "", "x");
    let y = comp(t2, "lay", "");
    let z = comp(t1, "a/b %25é", "..");
    match i {
        0 => vec![
            add_node("a", "node"),
            add_node("b", "node"),
            add_node("c/ü", "other"),
            add_label("a", "ns", "k", "1"),
            add_label("b", "", "k", ""),
            add_edge("a", "b", &x),
            add_edge("b", "c/ü", &x),
            add_edge("a", "b", &y),
            add_elabel("a", "b", &x, "", "l", "1"),
            add_elabel("a", "b", &y, "n", "m", "ü"),
        ],
        1 => vec![
            del_node("b"),
            add_node("d", "node"),
            add_edge("a", "d", &z),
            add_edge("d", "a", &z),
            add_elabel("a", "d", &z, "n", "m", "2"),
            add_label("a", "ns", "k", "2"),
            del_label("c/ü", "annis", "node_type"),
        ],
        // applying this twice is not the same as applying it once
        _ => vec![
            add_edge("a", "e", &x),
            add_node("e", "node"),
            add_label("d", "ns", "late", "1"),
            add_node("d", "node"),
            del_edge("a", "b", &x),
            del_elabel("a", "d", &z, "n", "m"),
            add_edge("e", "d", &y),
        ],
    }
}

struct Sys<CT: ComponentType> {
    g: Graph<CT>,
    dirs: [tempfile::TempDir; 2],
    // reference
    m: Model,
    loc: Option<usize>,
    saved: [Option<Model>; 2],
    disk: bool,
    /// global statistics must exist
    stats: bool,
    saved_stats: [bool; 2],
}

impl<CT: ComponentType> Sys<CT>
where
    <CT as FromStr>::Err: std::fmt::Debug,
{
    fn new(disk: bool) -> Result<Self, String> {
        Ok(Sys { g: es(Graph::with_default_graphstorages(disk), "new graph")?, dirs: [tmpdir("p"), tmpdir("p")], m: Model::default(), loc: None, saved: [None, None], disk, stats: false, saved_stats: [false, false] })
    }
    fn enabled(&self, op: Op) -> bool {
        match op {
            Op::Open(i) | Op::Import(i) => self.saved[i as usize].is_some(),
            Op::Sync | Op::Load(_) | Op::LoadAll => self.loc.is_some(),
            _ => true,
        }
    }
    fn step(&mut self, op: Op, t1: &str, t2: &str) -> Result<(), String> {
        let valid = |t: &str| CT::from_str(t).is_ok();
        match op {
            Op::Fresh(d) => {
                self.g = es(Graph::with_default_graphstorages(d), "new graph")?;
                self.m = Model::default();
                self.loc = None;
                self.disk = d;
                self.stats = false;
            }
            Op::Upd(i) | Op::UpdKeep(i) => {
                let evs = batch(i, t1, t2);
                let mut u = update(&evs)?;
                if let Op::Upd(_) = op {
                    es(self.g.apply_update(&mut u, |_| {}), "apply_update")?;
                    self.stats = true;
                } else {
                    es(self.g.apply_update_keep_statistics(&mut u, |_| {}), "apply_update_keep_statistics")?;
                }
                for e in &evs {
                    self.m.apply(e, &valid);
                }
                if let Some(l) = self.loc {
                    self.saved[l] = Some(self.m.clone());
                }
            }
            Op::Opt(d) => {
                es(self.g.optimize_impl(d), "optimize_impl")?;
                self.stats = true;
                if let Some(l) = self.loc {
                    self.saved[l] = Some(self.m.clone());
                    self.saved_stats[l] = true;
                }
            }
            Op::Save(i) | Op::Persist(i) => {
                let i = i as usize;
                if let Op::Save(_) = op {
                    es(self.g.save_to(self.dirs[i].path()), "save_to")?;
                } else {
                    es(self.g.persist_to(self.dirs[i].path()), "persist_to")?;
                    self.loc = Some(i);
                }
                self.saved[i] = Some(self.m.clone());
                self.saved_stats[i] = self.stats;
            }
            Op::Open(i) | Op::Import(i) => {
                let i = i as usize;
                if let Op::Open(_) = op {
                    es(self.g.open(self.dirs[i].path()), "open")?;
                    self.loc = Some(i);
                } else {
                    es(self.g.import(self.dirs[i].path()), "import")?;
                    self.loc = None;
                }
                self.m = self.saved[i].clone().unwrap();
                self.stats = self.saved_stats[i];
            }
            Op::Sync => {
                es(self.g.background_sync_wal_updates(), "background_sync_wal_updates")?;
                let l = self.loc.unwrap();
                self.saved[l] = Some(self.m.clone());
                self.saved_stats[l] = self.stats;
            }
            Op::Load(n) => {
                let cs = self.g.get_all_components(None, None);
                if !cs.is_empty() {
                    let c = cs[n as usize % cs.len()].clone();
                    es(self.g.ensure_loaded(&c), "ensure_loaded")?;
                }
            }
            Op::LoadAll => es(self.g.ensure_loaded_all(), "ensure_loaded_all")?,
        }
        Ok(())
    }
    fn finish(&mut self, skip: &dyn Fn(&str, &str, &str) -> bool) -> Result<(), String> {
        if self.stats && CT::all_component_types().len() > 1 && self.g.global_statistics.is_none() {
            return Err("the global statistics are lost".into());
        }
        // what is on disk, while the graph may still use these files
        let check_disk = |s: &Self, what: &str| -> Result<(), String> {
            for i in 0..2 {
                if let Some(exp) = &s.saved[i] {
                    let mut h: Graph<CT> = es(Graph::new(false), "Graph::new")?;
                    es(h.open(s.dirs[i].path()), "open")?;
                    es(h.ensure_loaded_all(), "ensure_loaded_all")?;
                    same(&dump(&h, skip)?.normal(), &exp.clone().normal(), &format!("graph opened from location {i} {what}"))?;
                    if s.saved_stats[i] && CT::all_component_types().len() > 1 && h.global_statistics.is_none() {
                        return Err(format!("the global statistics in location {i} are lost"));
                    }
                }
            }
            Ok(())
        };
        check_disk(self, "at the end")?;
        es(self.g.ensure_loaded_all(), "ensure_loaded_all")?;
        same(&dump(&self.g, skip)?.normal(), &self.m.clone().normal(), "graph itself at the end")
    }
}

fn one<CT: ComponentType>(run: &Run, h: &[Op], t1: &str, t2: &str, prefix: bool, skip: &dyn Fn(&str, &str, &str) -> bool) -> Result<(), String>
where
    <CT as FromStr>::Err: std::fmt::Debug,
{
    let mut s = Sys::<CT>::new(false)?;
    if prefix {
        s.step(Op::Upd(0), t1, t2)?;
        s.step(Op::Persist(0), t1, t2)?;
        s.step(Op::Open(0), t1, t2)?;
    }
    for op in h {
        if !s.enabled(*op) {
            return Ok(());
        }
        s.step(*op, t1, t2).map_err(|e| format!("{op:?}: {e}"))?;
    }
    run.trans(h.len() as u64);
    run.state(&(&s.m, &s.saved, s.loc, s.disk));
    s.finish(skip)
}

fn explore<CT: ComponentType>(run: &Run, name: &str, t1: &str, t2: &str, depth: usize, prefix: bool, skip: impl Fn(&str, &str, &str) -> bool + Sync)
where
    <CT as FromStr>::Err: std::fmt::Debug,
{
    let ops = ops();
    let n = ops.len() as u64;
    // the abstract part of the state decides which operations are enabled, cut disabled histories early
    let enabled = |v: &[usize]| {
        let mut saved = [prefix, false];
        let mut loc = if prefix { Some(0) } else { None };
        let mut something = prefix;
        for (k, i) in v.iter().enumerate() {
            match ops[*i] {
                Op::Open(i) => {
                    if !saved[i as usize] {
                        return false;
                    }
                    loc = Some(i as usize);
                }
                Op::Import(i) => {
                    if !saved[i as usize] {
                        return false;
                    }
                    loc = None;
                }
                Op::Persist(i) => {
                    saved[i as usize] = true;
                    loc = Some(i as usize);
                }
                Op::Save(i) => saved[i as usize] = true,
                Op::Sync | Op::Load(_) | Op::LoadAll => {
                    if loc.is_none() {
                        return false;
                    }
                }
                Op::Fresh(_) => {
                    // only at the start of a history or of a second graph
                    if k > 0 && !something {
                        return false;
                    }
                    loc = None;
                }
                Op::Upd(_) | Op::UpdKeep(_) => something = true,
                _ => (),
            }
        }
        true
    };
    let it = (1..=depth).flat_map(move |d| (0..n.pow(d as u32)).map(move |x| (d, x))).filter_map(|(d, mut x)| {
        let mut v = vec![0; d];
        for i in (0..d).rev() {
            v[i] = (x % n) as usize;
            x /= n;
        }
        enabled(&v).then_some(v)
    });
    run.par_n(8, 16, it, |v| {
        let h: Vec<Op> = v.iter().map(|i| ops[*i]).collect();
        run.case(
            || format!("{name}/{}/{}", if prefix { "opened" } else { "new" }, v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")),
            || one::<CT>(run, &h, t1, t2, prefix, &skip).map_err(|e| format!("{e}\n  history: {h:?}")),
        );
    });
}

/// Component names
fn names(run: &Run) {
    let mut strs: Vec<String> = vec!["".into(), "default_layer".into(), "%64efault_layer".into(), "default_layerx".into(), "A".into(), "gs".into(), "current".into(), "CON".into(), "x".repeat(200)];
    let alpha = ["a", "/", ".", "%", "2", "F", "ü", " ", "\\", "~", "\t", ":", "*", "😀"];
    for a in alpha {
        if a != "/" {
            strs.push(a.to_string());
        }
        for b in alpha {
            if a != "/" {
                strs.push(format!("{a}{b}"));
            }
        }
    }
    for x in ["%2F", "..%2F", "../x", "../../x", "a/../b", "a/./b", "%2e", "%00", "a\0b", "a\nb", "%C3%BC", "%", "%zz", "a//b", "a/"] {
        strs.push(x.to_string());
    }
    let mut work = vec![];
    for i in 0..strs.len() {
        for v in 0..4u8 {
            work.push((i, v));
        }
    }
    run.par_n(8, 2, work.into_iter(), |(i, v)| {
        run.case(
            || format!("names/{v}/{:?}", strs[i]),
            || {
                let x = strs[i].as_str();
                // contained even if the names are used as paths
                let root = tmpdir("pn");
                let dir = root.path().join("1/2/3/4/5/6/7/8");
                es(std::fs::create_dir_all(&dir), "create dir")?;
                let abs = root.path().join("abs").to_string_lossy().to_string();
                let mut evs = vec![add_node("a", "node"), add_node("b", "node")];
                let mut cs = vec![
                    comp("Edge", x, ""),
                    comp("Edge", "", x),
                    comp("Edge", x, "n"),
                    comp("Edge", "n", x),
                    comp("Edge", x, x),
                    comp("Edge", "", ""),
                    comp("Edge", &abs, ""),
                    comp("Edge", "", &abs),
                ];
                cs.sort();
                cs.dedup();
                for (k, c) in cs.iter().enumerate() {
                    let (s, t) = if k % 2 == 0 { ("a", "b") } else { ("b", "a") };
                    evs.push(add_edge(s, t, c));
                    evs.push(add_elabel(s, t, c, "", "k", &k.to_string()));
                }
                let mut m = Model::default();
                for e in &evs {
                    m.apply(e, &|t| t == "Edge");
                }
                let mut g: Graph<DefaultComponentType> = es(Graph::new(v & 1 == 1), "Graph::new")?;
                es(g.apply_update(&mut update(&evs)?, |_| {}), "apply_update")?;
                if v & 2 == 2 {
                    es(g.optimize_impl(v & 1 == 1), "optimize_impl")?;
                }
                es(g.save_to(&dir), "save_to")?;
                let mut h: Graph<DefaultComponentType> = es(Graph::new(false), "Graph::new")?;
                es(h.open(&dir), "open")?;
                es(h.ensure_loaded_all(), "ensure_loaded_all")?;
                same(&dump(&h, &no_skip)?.normal(), &m.clone().normal(), "reopened graph")?;
                // nothing is written outside the location
                for e in std::fs::read_dir(root.path()).map_err(|e| e.to_string())? {
                    let n = e.map_err(|e| e.to_string())?.file_name();
                    if n != "1" {
                        return Err(format!("saving wrote {n:?} outside of the location"));
                    }
                }
                run.trans(2);
                run.state(&(i, v));
                Ok(())
            },
        );
    });
}

pub fn check(run: &Run) {
    *run.rule.lock().unwrap() = "every history up to the depth over update (3 batches, with and without statistics), optimize to either mode, save, persist, open and import (2 locations), background write, load of single components, from a new graph and from an opened one, on the real graph and file system; afterwards the graph and everything stored at both locations is compared with the reference; distinct = distinct (graph, stored graphs, location)".into();
    let d = run.q(4, 5);
    names(run);
    explore::<DefaultComponentType>(run, "core", "Edge", "Edge", d, true, no_skip);
    explore::<AnnotationComponentType>(run, "annis", "Pointing", "Ordering", d - 1, true, is_derived);
    explore::<DefaultComponentType>(run, "core", "Edge", "Edge", d, false, no_skip);
    explore::<AnnotationComponentType>(run, "annis", "Pointing", "Ordering", d - 1, false, is_derived);
    run.note("bounds", json!({"operations": ops().len(), "depth": d}));
}
