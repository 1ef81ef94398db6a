//! C18: derived token indexes compared with their definition on the current graph.
use crate::model::*;
use crate::run::*;
use crate::{must, must_eq};
use crate::updates::{is_derived, no_skip};
use graphannis::AnnotationGraph;
use graphannis::model::AnnotationComponentType;
use graphannis_core::graph::update::UpdateEvent;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

fn tok() -> Qn {
    q("annis", "tok")
}
fn inh() -> Comp {
    comp("Coverage", "annis", "inherited-coverage")
}

/// What the derived components must look like for the given content
pub struct Derived {
    pub token: BTreeSet<String>,
    /// covered token of each node
    pub covered: BTreeMap<String, BTreeSet<String>>,
    /// direct (not derived) coverage edges
    pub direct: BTreeMap<String, BTreeSet<String>>,
    pub before: BTreeMap<String, BTreeSet<String>>,
    /// True if a node has a token label and dominance, but no coverage edges: it is open if it is a token
    pub unclear: bool,
}

fn closure(edges: &BTreeMap<String, BTreeSet<String>>) -> BTreeMap<String, BTreeSet<String>> {
    let mut r = BTreeMap::new();
    for n in edges.keys() {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<&String> = edges[n].iter().collect();
        while let Some(x) = todo.pop() {
            if seen.insert(x.clone()) {
                todo.extend(edges.get(x).into_iter().flatten());
            }
        }
        r.insert(n.clone(), seen);
    }
    r
}

pub fn derive(m: &Model) -> Derived {
    let mut direct: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut text: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut dom_only = BTreeSet::new();
    let mut order: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for (c, es) in &m.edges {
        for (a, b) in es.keys() {
            if c.0 == "Coverage" && *c != inh() {
                direct.entry(a.clone()).or_default().insert(b.clone());
                text.entry(a.clone()).or_default().insert(b.clone());
            } else if c.0 == "Dominance" {
                text.entry(a.clone()).or_default().insert(b.clone());
                dom_only.insert(a.clone());
            } else if *c == comp("Ordering", "annis", "") {
                order.entry(a.clone()).or_default().insert(b.clone());
            }
        }
    }
    let token: BTreeSet<String> = m.nodes.iter().filter(|(n, l)| l.contains_key(&tok()) && !direct.contains_key(*n)).map(|(n, _)| n.clone()).collect();
    let unclear = token.iter().any(|t| dom_only.contains(t));
    let covered = closure(&text).into_iter().map(|(n, r)| (n, r.intersection(&token).cloned().collect())).collect();
    Derived { token, covered, direct, before: closure(&order), unclear }
}

/// Compare the derived components `got` with the definition
pub fn compare(m: &Model, got: &Model) -> Result<(), String> {
    let d = derive(m);
    if d.unclear {
        return Ok(());
    }
    let empty = BTreeMap::new();
    let none = BTreeSet::new();
    let cov: BTreeSet<(String, String)> = got.edges.get(&inh()).unwrap_or(&empty).keys().cloned().collect();
    let mut exp = BTreeSet::new();
    for (n, c) in &d.covered {
        for t in c {
            if t != n && !d.direct.get(n).is_some_and(|x| x.contains(t)) {
                exp.insert((n.clone(), t.clone()));
            }
        }
    }
    must_eq!(cov, exp, "inherited coverage edges");
    for (ct, left) in [("LeftToken", true), ("RightToken", false)] {
        let es = got.edges.get(&comp(ct, "annis", "")).unwrap_or(&empty);
        for (a, b) in es.keys() {
            must!(m.nodes.contains_key(a) && m.nodes.contains_key(b), "{ct} edge {a} -> {b} of a node that does not exist");
        }
        for n in m.nodes.keys() {
            let c = d.covered.get(n).unwrap_or(&none);
            let got: Vec<&String> = es.keys().filter(|(a, _)| a == n).map(|(_, b)| b).collect();
            if c.is_empty() {
                must!(got.is_empty(), "node {n} covers no token but has {ct} edge to {got:?}");
                continue;
            }
            must!(got.len() == 1, "node {n} covers {c:?} and should have one {ct} edge, but they are to {got:?}");
            let t = got[0];
            must!(c.contains(t), "node {n} covers {c:?} but its {ct} edge points to {t}");
            // a unique first/last one exists if the covered token are totally ordered
            let lt = |a: &String, b: &String| d.before.get(a).is_some_and(|x| x.contains(b));
            let total = c.iter().all(|a| c.iter().all(|b| if a == b { !lt(a, b) } else { lt(a, b) != lt(b, a) }));
            if total {
                let e = c.iter().find(|a| c.iter().all(|b| a == &b || if left { lt(a, b) } else { lt(b, a) })).unwrap();
                must!(t == e, "node {n} covers {c:?} and its {ct} edge points to {t} instead of {e}");
            }
        }
    }
    Ok(())
}

fn verify_stats(g: &AnnotationGraph, m: &Model, removed: bool) -> Result<(), String> {
    let d = derive(m);
    if d.unclear {
        return Ok(());
    }
    let st = g.global_statistics.as_ref().ok_or("no global statistics")?;
    let empty = BTreeMap::new();
    let order = m.edges.get(&comp("Ordering", "annis", "")).unwrap_or(&empty);
    let all = d.token.iter().all(|t| order.keys().any(|(a, b)| a == t || b == t));
    must_eq!(st.all_token_in_order_component, all, "statistics: all token are part of the ordering");
    let size = serde_json::to_value(&st.corpus_size).map_err(|e| e.to_string())?;
    must_eq!(size["Token"]["base_token_count"], json!(d.token.len()), "statistics: number of token");
    for (c, es) in &m.edges {
        // the size of a segmentation is an estimate after edges have been removed
        if !removed && c.0 == "Ordering" && !c.2.is_empty() {
            let nodes: BTreeSet<&String> = es.keys().flat_map(|(a, b)| [a, b]).collect();
            must_eq!(size["Token"]["segmentation_count"][&c.2].as_u64().unwrap_or(0), nodes.len() as u64, "statistics: number of nodes of segmentation {}", c.2);
        }
    }
    Ok(())
}

pub fn verify(g: &AnnotationGraph, m: &Model) -> Result<(), String> {
    let got = dump(g, &no_skip)?;
    let mut m = m.clone();
    m.edges.retain(|c, _| !is_derived(&c.0, &c.1, &c.2));
    let m = &m;
    let mut plain = got.clone();
    plain.edges.retain(|c, _| !is_derived(&c.0, &c.1, &c.2));
    same(&plain.normal(), &m.clone().normal(), "graph after the updates")?;
    compare(m, &got)?;
    Ok(())
}

enum Op {
    Ev(UpdateEvent),
    Optimize(bool),
    Reopen,
}

fn show_op(o: &Op) -> String {
    match o {
        Op::Ev(e) => show(e),
        Op::Optimize(d) => format!("optimize(disk={d})"),
        Op::Reopen => "reopen".into(),
    }
}

fn valid(t: &str) -> bool {
    AnnotationComponentType::from_str(t).is_ok()
}

fn run_ops(run: &Run, start: &[UpdateEvent], ops: &[&Op], cuts: u32, disk: bool, stats: bool) -> Result<(), String> {
    let mut g = es(AnnotationGraph::with_default_graphstorages(disk), "with_default_graphstorages")?;
    let mut m = Model::default();
    let mut dirs = vec![];
    if !start.is_empty() {
        for e in start {
            m.apply(e, &valid);
        }
        es(g.apply_update(&mut update(start)?, |_| {}), "apply_update")?;
    }
    let mut pending: Vec<UpdateEvent> = vec![];
    let mut removed = false;
    for (i, o) in ops.iter().enumerate() {
        if let Op::Ev(e) = o {
            if let UpdateEvent::AddNodeLabel { node_name, anno_ns, anno_name, anno_value } = e
                && anno_ns == "annis"
                && anno_name == "node_name"
                && m.nodes.contains_key(node_name)
                && m.nodes.contains_key(anno_value)
            {
                return Ok(());
            }
            removed |= matches!(e, UpdateEvent::DeleteNode { .. } | UpdateEvent::DeleteEdge { .. });
            m.apply(e, &valid);
            pending.push(e.clone());
            run.trans(1);
        }
        let boundary = i + 1 == ops.len() || cuts & (1 << i) != 0 || !matches!(o, Op::Ev(_)) || !matches!(ops[i + 1], Op::Ev(_));
        if boundary && !pending.is_empty() {
            let mut u = update(&pending)?;
            pending.clear();
            if stats {
                es(g.apply_update(&mut u, |_| {}), "apply_update")?;
            } else {
                es(g.apply_update_keep_statistics(&mut u, |_| {}), "apply_update_keep_statistics")?;
            }
            verify(&g, &m)?;
            if stats {
                verify_stats(&g, &m, removed)?;
            }
            run.state(&m.clone().normal());
        }
        match o {
            Op::Optimize(d) => es(g.optimize_impl(*d), "optimize_impl")?,
            Op::Reopen => {
                let dir = tmpdir("idx");
                es(g.save_to(dir.path()), "save_to")?;
                g = es(AnnotationGraph::new(disk), "new")?;
                es(g.open(dir.path()), "open")?;
                es(g.ensure_loaded_all(), "ensure_loaded_all")?;
                dirs.push(dir);
            }
            Op::Ev(_) => continue,
        }
        verify(&g, &m)?;
    }
    drop(g);
    Ok(())
}

fn start(kind: u8) -> Vec<UpdateEvent> {
    let ord = comp("Ordering", "annis", "");
    let cov = comp("Coverage", "annis", "");
    let dom = comp("Dominance", "l", "");
    let edge = comp("Dominance", "l", "edge");
    let mut r = vec![];
    if kind == 0 {
        return r;
    }
    for t in ["t1", "t2", "t3"] {
        r.push(add_node(t, "node"));
        r.push(add_label(t, "annis", "tok", t));
    }
    r.push(add_edge("t1", "t2", &ord));
    r.push(add_edge("t2", "t3", &ord));
    for n in ["S", "D"] {
        r.push(add_node(n, "node"));
    }
    match kind {
        1 => (),
        2 => {
            r.push(add_edge("S", "t2", &cov));
            r.push(add_edge("D", "S", &dom));
            r.push(add_edge("D", "t3", &edge));
        }
        3 => {
            // only a named dominance component, inserted in reverse order
            r.push(add_edge("D", "S", &edge));
            r.push(add_edge("S", "t3", &edge));
            r.push(add_edge("S", "t1", &comp("Coverage", "x", "seg")));
        }
        4 => {
            // a segmentation node, above it another one
            r.push(add_label("S", "annis", "tok", "S"));
            r.push(add_edge("S", "t1", &cov));
            r.push(add_edge("S", "t2", &cov));
            r.push(add_edge("D", "S", &cov));
        }
        5 => {
            // a long chain: covered token are not part of the changed edges
            r.push(add_node("t4", "node"));
            r.push(add_label("t4", "annis", "tok", "t4"));
            r.push(add_edge("t3", "t4", &ord));
            r.push(add_edge("S", "t1", &cov));
            r.push(add_edge("S", "t4", &cov));
            r.push(add_edge("D", "S", &dom));
        }
        _ => unreachable!(),
    }
    r
}

fn alphabet(full: bool) -> Vec<Op> {
    let ord = comp("Ordering", "annis", "");
    let cov = comp("Coverage", "annis", "");
    let dom = comp("Dominance", "l", "");
    let edge = comp("Dominance", "l", "edge");
    let seg = comp("Coverage", "x", "seg");
    let mut r = vec![
        add_edge("S", "t1", &cov),
        add_edge("S", "t3", &cov),
        del_edge("S", "t2", &cov),
        del_edge("S", "t1", &cov),
        add_edge("S", "t2", &seg),
        add_edge("D", "S", &edge),
        del_edge("D", "S", &edge),
        add_edge("D", "S", &dom),
        del_edge("D", "S", &dom),
        add_edge("D", "t1", &edge),
        del_edge("D", "t3", &edge),
        add_edge("S", "D", &edge),
        add_edge("t2", "t1", &ord),
        del_edge("t1", "t2", &ord),
        del_edge("t2", "t3", &ord),
        add_edge("t2", "t3", &ord),
        add_edge("t3", "t1", &ord),
        del_node("t1"),
        del_node("t2"),
        add_node("t2", "node"),
        add_label("t2", "annis", "tok", "new"),
        del_label("t2", "annis", "tok"),
        del_node("S"),
        add_node("S", "node"),
        add_label("S", "annis", "tok", "seg"),
        add_label("t1", "annis", "node_name", "t9"),
        add_edge("S", "t9", &cov),
    ];
    if full {
        r.extend([
            del_edge("D", "S", &cov),
            add_edge("D", "S", &cov),
            add_edge("D", "t2", &cov),
            del_edge("S", "t2", &seg),
            del_edge("t3", "t4", &ord),
            add_edge("t3", "t4", &ord),
            add_edge("t1", "t3", &ord),
            add_edge("S", "t1", &comp("LeftToken", "annis", "")),
            del_edge("S", "t1", &comp("LeftToken", "annis", "")),
            add_label("S", "annis", "node_name", "D2"),
            add_label("t1", "annis", "node_name", "t2"),
            add_edge("S", "D", &comp("Pointing", "", "dep")),
            add_edge("S", "D", &comp("Ordering", "annis", "seg")),
            add_edge("D", "t1", &comp("Ordering", "annis", "seg")),
            del_label("S", "annis", "tok"),
        ]);
    }
    let mut r: Vec<Op> = r.into_iter().map(Op::Ev).collect();
    r.extend([Op::Optimize(false), Op::Optimize(true), Op::Reopen]);
    r
}

/// all contents with a fixed set of nodes in one batch
fn static_graphs(run: &Run) {
    let ord = comp("Ordering", "annis", "");
    let cov = comp("Coverage", "annis", "");
    let order_sets: Vec<Vec<(&str, &str)>> = vec![
        vec![("t1", "t2"), ("t2", "t3")],
        vec![("t3", "t2"), ("t2", "t1")],
        vec![("t2", "t3"), ("t3", "t1")],
        vec![("t1", "t2")],
        vec![],
        vec![("t1", "t2"), ("t1", "t3")],
        vec![("t1", "t3"), ("t2", "t3")],
    ];
    // S covers a set, D covers a set, D/S connected by an edge of some component, E above
    let kinds: Vec<Option<Comp>> = vec![None, Some(comp("Dominance", "", "")), Some(comp("Dominance", "l", "edge")), Some(comp("Coverage", "x", "c"))];
    let mut work = vec![];
    for o in 0..order_sets.len() {
        for s in 0..8u32 {
            for d in 0..8u32 {
                for k in 0..kinds.len() {
                    for k2 in 0..kinds.len() {
                        for toks in run.q(vec![7u32, 5], vec![7, 5, 3, 1, 0]) {
                            for first in 0..3u8 {
                                work.push((o, s, d, k, k2, toks, first));
                            }
                        }
                    }
                }
            }
        }
    }
    run.par_n(8, 16, work.into_iter(), |(o, s, d, k, k2, toks, first)| {
        run.case(
            || format!("static/{o}/{s}/{d}/{k}/{k2}/{toks}/{first}"),
            || {
                let nodes = match first {
                    0 => vec!["t1", "t2", "t3", "S", "D", "E"],
                    1 => vec!["E", "D", "S", "t3", "t2", "t1"],
                    _ => vec!["S", "t2", "E", "t3", "D", "t1"],
                };
                let mut evs = vec![];
                for n in nodes {
                    evs.push(add_node(n, "node"));
                }
                for (i, t) in ["t1", "t2", "t3"].iter().enumerate() {
                    if toks & (1 << i) != 0 {
                        evs.push(add_label(t, "annis", "tok", t));
                    }
                    if s & (1 << i) != 0 {
                        evs.push(add_edge("S", t, &cov));
                    }
                    if d & (1 << i) != 0 {
                        evs.push(add_edge("D", t, &comp("Dominance", "", "")));
                    }
                }
                for (a, b) in &order_sets[o] {
                    evs.push(add_edge(a, b, &ord));
                }
                if let Some(c) = &kinds[k] {
                    evs.push(add_edge("D", "S", c));
                }
                if let Some(c) = &kinds[k2] {
                    evs.push(add_edge("E", "D", c));
                    if first == 2 {
                        evs.push(add_edge("S", "E", c));
                    }
                }
                let ops: Vec<Op> = evs.into_iter().map(Op::Ev).collect();
                run_ops(run, &[], &ops.iter().collect::<Vec<_>>(), 0, first == 1 && o == 0, true).map_err(|e| format!("{e}\n  events: {}", ops.iter().map(show_op).collect::<Vec<_>>().join(" ")))
            },
        );
    });
}

fn histories(run: &Run, starts: &[u8], depth: usize, full: bool, disk: bool) {
    let ops = alphabet(full);
    let n = ops.len() as u64;
    for st in starts {
        let begin = start(*st);
        let it = (1..=depth).flat_map(move |d| (0..n.pow(d as u32)).map(move |x| (d, x)));
        run.par_n(8, 32, it, |(d, mut x)| {
            let mut v = vec![0; d];
            for i in (0..d).rev() {
                v[i] = (x % n) as usize;
                x /= n;
            }
            // not interesting: sequences that end with an operation that does not change the graph's content are checked inside longer ones
            let list: Vec<&Op> = v.iter().map(|i| &ops[*i]).collect();
            let evs = list.iter().filter(|o| matches!(o, Op::Ev(_))).count();
            if evs == 0 {
                return;
            }
            let full_cut = (1u32 << (d - 1)) - 1;
            let cuts: Vec<u32> = if d == 1 { vec![0] } else { vec![0, full_cut] };
            for cut in cuts {
                run.case(
                    || format!("hist/{st}/full{full}/disk{disk}/{}/{cut}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")),
                    || {
                        run_ops(run, &begin, &list, cut, disk, d % 2 == 1 || cut == 0)
                            .map_err(|e| format!("{e}\n  start: {}\n  then: {} cuts {cut:b}", show_all(&begin), list.iter().map(|x| show_op(x)).collect::<Vec<_>>().join(" ")))
                    },
                );
            }
        });
    }
}

pub fn check(run: &Run) {
    *run.rule.lock().unwrap() = "every history of events, optimizations and reopenings up to the depth from each start graph, in one batch and event by event, on the real annotation graph; after each batch the derived components are compared with their definition on the reference graph; distinct = distinct reference graphs".into();
    run.assume("a node with token label and outgoing dominance but no coverage edges may or may not count as token, such graphs are not compared");
    run.assume("if the covered token are not totally ordered any covered token may be the left-most and right-most one");
    static_graphs(run);
    histories(run, &[2, 3, 4, 5], 2, true, false);
    histories(run, &[2], 2, true, true);
    histories(run, run.q(&[2, 5], &[1, 2, 3, 4, 5]), 3, !run.q(true, false), false);
    histories(run, &[3, 4], 2, true, true);
    run.note("bounds", json!({"alphabet": alphabet(true).len(), "depth": 3}));
}
