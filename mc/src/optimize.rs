//! C05: optimizing never changes the content, for all component shapes and short histories.
use crate::gs::*;
use crate::model::*;
use crate::must_eq;
use crate::run::*;
use crate::updates::no_skip;
use graphannis_core::graph::Graph;
use graphannis_core::graph::update::UpdateEvent;
use graphannis_core::types::DefaultComponentType;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Opt(bool),
    /// add (or remove if it exists) the edge with this number
    Toggle(u8),
    DelNode(u8),
    /// calculate statistics and reload from a directory
    Reload,
    Keep(u8),
}

struct Sys {
    g: Graph<DefaultComponentType>,
    m: Model,
    dir: Option<tempfile::TempDir>,
    n: usize,
}

fn nn(i: usize) -> String {
    format!("n{i}")
}

impl Sys {
    fn new(n: usize, extra: usize, mask: u64, disk: bool) -> Result<Sys, String> {
        let mut g = es(Graph::new(disk), "Graph::new")?;
        let c = comp("Edge", "", "x");
        let mut evs = vec![];
        // `extra` nodes before and after which are not part of the component
        for i in 0..extra / 2 {
            evs.push(add_node(&format!("before{i}"), "other"));
        }
        for i in 0..n {
            evs.push(add_node(&nn(i), "node"));
        }
        for i in 0..extra / 2 {
            evs.push(add_node(&format!("after{i}"), "other"));
        }
        evs.push(add_label(&nn(0), "ns", "k", "v"));
        evs.push(del_label(&nn(n - 1), "annis", "node_type"));
        let mut b = 0;
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    if mask >> b & 1 == 1 {
                        evs.push(add_edge(&nn(i), &nn(j), &c));
                        if b % 2 == 0 {
                            evs.push(add_elabel(&nn(i), &nn(j), &c, "ns", "l", &b.to_string()));
                        }
                    }
                    b += 1;
                }
            }
        }
        let mut s = Sys { g, m: Model::default(), dir: None, n };
        g = es(Graph::new(disk), "Graph::new")?;
        s.g = g;
        s.update(&evs, false)?;
        Ok(s)
    }
    fn update(&mut self, evs: &[UpdateEvent], keep: bool) -> Result<(), String> {
        let mut u = update(evs)?;
        if keep {
            es(self.g.apply_update_keep_statistics(&mut u, |_| {}), "apply_update_keep_statistics")?;
        } else {
            es(self.g.apply_update(&mut u, |_| {}), "apply_update")?;
        }
        for e in evs {
            self.m.apply(e, &|t| t == "Edge");
        }
        Ok(())
    }
    fn toggle(&mut self, k: u8, keep: bool) -> Result<(), String> {
        let c = comp("Edge", "", "x");
        let (mut i, mut j) = (k as usize / (self.n - 1), k as usize % (self.n - 1));
        if j >= i {
            j += 1;
        }
        if i >= self.n {
            (i, j) = (0, 1);
        }
        let exists = self.m.edges.get(&c).map(|e| e.contains_key(&(nn(i), nn(j)))).unwrap_or(false);
        let e = if exists { vec![del_edge(&nn(i), &nn(j), &c)] } else { vec![add_edge(&nn(i), &nn(j), &c), add_elabel(&nn(i), &nn(j), &c, "", "new", "1")] };
        self.update(&e, keep)
    }
    fn step(&mut self, op: Op) -> Result<(), String> {
        match op {
            Op::Opt(d) => es(self.g.optimize_impl(d), "optimize_impl"),
            Op::Toggle(k) => self.toggle(k, false),
            Op::Keep(k) => self.toggle(k, true),
            Op::DelNode(k) => self.update(&[del_node(&nn(k as usize % self.n))], false),
            Op::Reload => {
                let dir = tmpdir("o");
                es(self.g.save_to(dir.path()), "save_to")?;
                self.g = es(Graph::new(false), "Graph::new")?;
                es(self.g.open(dir.path()), "open")?;
                es(self.g.ensure_loaded_all(), "ensure_loaded_all")?;
                self.dir = Some(dir);
                Ok(())
            }
        }
    }
    /// everything readable and the navigation in the component
    fn verify(&self, run: &Run) -> Result<(), String> {
        let got = dump(&self.g, &no_skip)?.normal();
        same(&got, &self.m.clone().normal(), "graph")?;
        for c in self.g.get_all_components(None, None) {
            let gs = self.g.get_graphstorage(&c).ok_or("component not loaded")?;
            let imp = gs.serialization_id();
            run.outcome(&imp);
            let mut r = RefGraph::default();
            let mut ids: BTreeMap<String, u64> = BTreeMap::new();
            for n in self.m.nodes.keys().filter(|n| n.starts_with('n')) {
                if let Some(id) = es(self.g.get_node_annos().get_node_id_from_name(n), "get_node_id_from_name")? {
                    ids.insert(n.clone(), id);
                }
            }
            r.nodes = ids.values().copied().collect();
            for ((a, b), l) in self.m.edges.get(&comp("Edge", &c.layer, &c.name)).into_iter().flatten() {
                r.edges.insert((ids[a], ids[b]));
                if !l.is_empty() {
                    r.annos.insert((ids[a], ids[b]), l.iter().map(|((ns, n), v)| (ns.clone(), n.clone(), v.clone())).collect::<BTreeSet<_>>());
                }
            }
            let ranges = [(0, Bound::Included(0)), (1, Bound::Included(1)), (1, Bound::Included(2)), (2, Bound::Included(3)), (0, Bound::Unbounded), (1, Bound::Unbounded), (2, Bound::Unbounded)];
            verify_self(gs.as_ref(), &r, &r.index(), &ranges, &r.nodes, !imp.starts_with("DiskPath")).map_err(|e| format!("{c} as {imp}: {e}"))?;
        }
        Ok(())
    }
}

fn patterns(e: u8, thorough: bool) -> Vec<Vec<Op>> {
    use Op::*;
    let mut v = vec![vec![Opt(false)], vec![Opt(true)], vec![Opt(false), Opt(true)], vec![Opt(true), Opt(false)], vec![Opt(true), Reload, Opt(false)], vec![Opt(false), Reload, Opt(true), Opt(true)], vec![Opt(true), Opt(true), Reload]];
    // after one change at every edge
    for k in 0..e {
        for d in [false, true] {
            v.push(vec![Opt(d), Toggle(k), Opt(d)]);
            v.push(vec![Opt(d), Keep(k), Opt(!d)]);
        }
        if thorough {
            for d in [false, true] {
                v.push(vec![Opt(d), Toggle(k), Opt(!d)]);
                v.push(vec![Opt(d), Keep(k), Opt(d)]);
                v.push(vec![Opt(d), Toggle(k), Opt(d), Reload, Toggle((k + 1) % e), Opt(d)]);
                v.push(vec![Opt(d), Reload, Toggle(k), Opt(!d), Reload]);
            }
        }
    }
    for k in 0..2 {
        for d in [false, true] {
            v.push(vec![Opt(d), DelNode(k), Opt(d), Toggle(1), Opt(d)]);
        }
    }
    v
}

fn run_case(run: &Run, n: usize, extra: usize, mask: u64, disk: bool, h: &[Op]) -> Result<(), String> {
    let mut s = Sys::new(n, extra, mask, disk)?;
    run.state(&(&s.m, disk));
    s.verify(run).map_err(|e| format!("before optimizing: {e}"))?;
    for (i, op) in h.iter().enumerate() {
        s.step(*op).map_err(|e| format!("{op:?}: {e}\n  history {h:?}"))?;
        run.trans(1);
        run.state(&(&s.m, disk, i + 1 == h.len()));
        s.verify(run).map_err(|e| format!("after step {i} of {h:?}: {e}"))?;
    }
    Ok(())
}

pub fn check(run: &Run) {
    *run.rule.lock().unwrap() = "every directed component graph up to 4 nodes, with few and many other nodes in the corpus, started in memory and on disk, and every history of a list of patterns (optimize to either mode, repeated, after changing every single edge with and without statistics, after deleting a node, after reloading); after every step the content and all navigation answers are compared; distinct = distinct (graph, mode, position), distinct outcomes = implementations chosen".into();
    let mut work = vec![];
    for n in 2..=3usize {
        let e = (n * (n - 1)) as u8;
        for mask in 0..(1u64 << e) {
            for extra in [0usize, 2, 20] {
                for disk in [false, true] {
                    for (pi, _) in patterns(e, run.thorough).iter().enumerate() {
                        work.push((n, extra, mask, disk, pi));
                    }
                }
            }
        }
    }
    let step4 = run.q(1, 1);
    for mask in (0..(1u64 << 12)).step_by(step4) {
        for (pi, _) in patterns(12, run.thorough).iter().enumerate() {
            // quick: each pattern with one of the configurations, thorough: all
            for (ci, (extra, disk)) in [(0usize, false), (0, true), (20, true), (20, false)].into_iter().enumerate() {
                if run.thorough || (pi < 7 && ci < 2) || (mask as usize + pi) % 32 == ci {
                    work.push((4, extra, mask, disk, pi));
                }
            }
        }
    }
    run.par_n(8, 8, work.into_iter(), |(n, extra, mask, disk, pi)| {
        run.case(|| format!("shape/{n}/{extra}/{mask}/{disk}/{pi}"), || run_case(run, n, extra, mask, disk, &patterns((n * (n - 1)) as u8, run.thorough)[pi]).map_err(|e| format!("{e}\n  {n} nodes, {extra} others, edge mask {mask:b}")));
    });
    deep(run);
    large(run);
    run.note("bounds", json!({"nodes": 4}));
}

/// Chains, trees and almost-trees around the limits of the implementations
fn deep(run: &Run) {
    let mut work = vec![];
    for len in run.q(vec![1usize, 2, 14, 15, 16, 254, 255, 256], vec![1, 2, 13, 14, 15, 16, 17, 253, 254, 255, 256, 257, 400]) {
        for kind in 0..5u8 {
            for disk in [false, true] {
                work.push((len, kind, disk));
            }
        }
    }
    run.par_n(8, 1, work.into_iter(), |(len, kind, disk)| {
        run.case(
            || format!("deep/{len}/{kind}/{disk}"),
            || {
                let c = comp("Edge", "", "x");
                let mut evs: Vec<UpdateEvent> = (0..=len + 1).map(|i| add_node(&nn(i), "node")).collect();
                for i in 0..len {
                    match kind {
                        // chain, reversed chain, wide tree, chain with diamonds, cycle
                        1 => evs.push(add_edge(&nn(i + 1), &nn(i), &c)),
                        2 => evs.push(add_edge(&nn(i / 2), &nn(i + 1), &c)),
                        _ => evs.push(add_edge(&nn(i), &nn(i + 1), &c)),
                    }
                }
                if kind == 3 && len >= 2 {
                    evs.push(add_edge(&nn(len - 2), &nn(len + 1), &c));
                    evs.push(add_edge(&nn(len + 1), &nn(len), &c));
                }
                if kind == 4 && len >= 2 {
                    evs.push(add_edge(&nn(len), &nn(len / 2), &c));
                }
                let mut s = Sys { g: es(Graph::new(disk), "Graph::new")?, m: Model::default(), dir: None, n: len + 2 };
                s.update(&evs, false)?;
                for op in [Op::Opt(disk), Op::Opt(!disk), Op::Reload, Op::Opt(disk), Op::Toggle(0), Op::Opt(disk), Op::Opt(!disk)] {
                    s.step(op).map_err(|e| format!("{op:?}: {e}"))?;
                    run.trans(1);
                    run.state(&(len, kind, disk));
                    same(&dump(&s.g, &no_skip)?.normal(), &s.m.clone().normal(), &format!("graph after {op:?}"))?;
                    // distances from the first and to the last node
                    let e = s.m.edges.get(&c).cloned().unwrap_or_default();
                    let mut adj: BTreeMap<String, Vec<String>> = BTreeMap::new();
                    for (a, b) in e.keys() {
                        adj.entry(a.clone()).or_default().push(b.clone());
                    }
                    let id = |n: &str| s.g.get_node_annos().get_node_id_from_name(n).ok().flatten();
                    for cc in s.g.get_all_components(None, None) {
                        let gs = s.g.get_graphstorage(&cc).ok_or("not loaded")?;
                        run.outcome(&gs.serialization_id());
                        for start in [0usize, len / 2, len] {
                            // breadth first search
                            let mut dist: BTreeMap<String, usize> = BTreeMap::from([(nn(start), 0)]);
                            let mut todo = std::collections::VecDeque::from([nn(start)]);
                            while let Some(x) = todo.pop_front() {
                                for y in adj.get(&x).into_iter().flatten() {
                                    if !dist.contains_key(y) {
                                        dist.insert(y.clone(), dist[&x] + 1);
                                        todo.push_back(y.clone());
                                    }
                                }
                            }
                            let a = id(&nn(start)).ok_or("node lost")?;
                            for i in 0..=len + 1 {
                                if i == start {
                                    continue;
                                }
                                let b = id(&nn(i)).ok_or("node lost")?;
                                let d = es(gs.distance(a, b), "distance")?;
                                if d != dist.get(&nn(i)).copied() {
                                    return Err(format!("after {op:?}, {}: distance {start} -> {i} is {d:?}, expected {:?}", gs.serialization_id(), dist.get(&nn(i))));
                                }
                            }
                        }
                    }
                }
                Ok(())
            },
        );
    });
}

/// Components around the limits of the number types of the implementations
fn large(run: &Run) {
    let mut work = vec![];
    // 16 bit order values: two for each node of a tree
    for n in run.q(vec![32767usize, 32768, 65535], vec![16384, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537]) {
        for kind in 0..2u8 {
            work.push((n, kind));
        }
    }
    // 16 bit positions
    for n in run.q(vec![65536usize, 65537], vec![65534, 65535, 65536, 65537, 65538]) {
        work.push((n, 2));
    }
    // as prepost with a small level type
    for n in run.q(vec![300usize], vec![254, 255, 256, 257, 300]) {
        work.push((n, 3));
    }
    run.par_n(8, 1, work.into_iter(), |(n, kind)| {
        run.case(
            || format!("large/{n}/{kind}"),
            || {
                let c = comp("Edge", "", "x");
                let mut evs: Vec<UpdateEvent> = (0..n).map(|i| add_node(&nn(i), "node")).collect();
                let parent = |i: usize| match kind {
                    0 => (i - 1) / 2,
                    // many children
                    1 => (i - 1) / 200,
                    // chain
                    2 => i - 1,
                    // chain with leaves
                    _ => if i % 2 == 0 { i.saturating_sub(2) } else { i - 1 },
                };
                for i in 1..n {
                    evs.push(add_edge(&nn(parent(i)), &nn(i), &c));
                }
                let mut g: Graph<DefaultComponentType> = es(Graph::new(false), "Graph::new")?;
                es(g.apply_update(&mut update(&evs)?, |_| {}), "apply_update")?;
                es(g.optimize_impl(false), "optimize_impl")?;
                run.trans(2);
                run.state(&(n, kind));
                let cs = g.get_all_components(None, None);
                let gs = g.get_graphstorage(&cs[0]).ok_or("not loaded")?;
                run.outcome(&gs.serialization_id());
                let id: Vec<u64> = (0..n).map(|i| es(g.get_node_annos().get_node_id_from_name(&nn(i)), "id").and_then(|x| x.ok_or("node lost".into()))).collect::<Result<_, String>>()?;
                let mut exp: BTreeMap<u64, BTreeSet<u64>> = BTreeMap::new();
                for i in 1..n {
                    exp.entry(id[parent(i)]).or_default().insert(id[i]);
                }
                for i in 0..n {
                    let got: BTreeSet<u64> = gs.get_outgoing_edges(id[i]).collect::<Result<_, _>>().map_err(|e| e.to_string())?;
                    let e = exp.remove(&id[i]).unwrap_or_default();
                    if got != e {
                        return Err(format!("{}: node {i} has {} outgoing edges, expected {}", gs.serialization_id(), got.len(), e.len()));
                    }
                }
                // some ingoing edges, the inverse search of an order based storage is linear
                for i in (1..n).step_by(n / 16 + 1).chain([1, n / 2, n - 1]) {
                    let got: Vec<u64> = gs.get_ingoing_edges(id[i]).collect::<Result<_, _>>().map_err(|e| e.to_string())?;
                    must_eq!(got, vec![id[parent(i)]], "{}: ingoing edges of node {i}", gs.serialization_id());
                }
                let all = gs.find_connected(id[0], 1, Bound::Unbounded).count();
                must_eq!(all, n - 1, "{}: nodes reachable from the root", gs.serialization_id());
                Ok(())
            },
        );
    });
}
