//! C01: update events compared with the reference graph.
use crate::model::*;
use crate::run::*;
use graphannis::AnnotationGraph;
use graphannis::model::AnnotationComponentType;
use graphannis_core::graph::Graph;
use graphannis_core::graph::update::UpdateEvent;
use graphannis_core::types::{ComponentType, DefaultComponentType};
use serde_json::json;
use std::str::FromStr;

pub fn is_derived(t: &str, l: &str, n: &str) -> bool {
    t == "LeftToken" || t == "RightToken" || (t == "Coverage" && l == "annis" && n == "inherited-coverage")
}
pub fn no_skip(_: &str, _: &str, _: &str) -> bool {
    false
}

pub fn alphabet(t1: &str, t2: &str) -> Vec<UpdateEvent> {
    let x = comp(t1, "", "x");
    let y = comp(t2, "lay", "");
    let mut r = vec![];
    for n in ["a", "b", "c"] {
        r.push(add_node(n, "node"));
        r.push(del_node(n));
    }
    r.push(add_label("a", "ns", "k", "1"));
    r.push(add_label("a", "ns", "k", "2"));
    r.push(del_label("a", "ns", "k"));
    r.push(add_label("b", "", "k", "1"));
    r.push(add_edge("a", "b", &x));
    r.push(add_edge("b", "a", &x));
    r.push(add_edge("b", "c", &x));
    r.push(add_edge("a", "a", &x));
    r.push(add_edge("a", "b", &y));
    r.push(del_edge("a", "b", &x));
    r.push(del_edge("a", "b", &y));
    r.push(add_elabel("a", "b", &x, "", "l", "1"));
    r.push(add_elabel("a", "b", &x, "", "l", "2"));
    r.push(del_elabel("a", "b", &x, "", "l"));
    r.push(add_elabel("b", "c", &x, "n", "l", "1"));
    // names change, unknown component types
    r.push(add_label("a", "annis", "node_name", "d"));
    r.push(add_edge("a", "b", &comp("NoSuchType", "", "x")));
    r
}

pub fn start_events(t1: &str, t2: &str) -> Vec<UpdateEvent> {
    let x = comp(t1, "", "x");
    let y = comp(t2, "lay", "");
    vec![
        add_node("a", "node"),
        add_node("b", "node"),
        add_node("c", "other"),
        add_label("a", "ns", "k", "1"),
        add_label("b", "ns", "k", "1"),
        add_edge("a", "b", &x),
        add_edge("b", "c", &x),
        add_edge("a", "b", &y),
        add_elabel("a", "b", &x, "", "l", "1"),
        add_elabel("b", "c", &x, "", "l", "1"),
        add_elabel("a", "b", &y, "n", "m", "ü"),
    ]
}

/// ways to cut a list of n events into batches, as bit mask of the cuts
fn apply_batched<CT: ComponentType>(g: &mut Graph<CT>, evs: &[UpdateEvent], cuts: u32, keep: bool) -> Result<(), String> {
    let mut start = 0;
    for i in 0..evs.len() {
        if i + 1 == evs.len() || cuts & (1 << i) != 0 {
            let mut u = update(&evs[start..=i])?;
            if keep {
                es(g.apply_update_keep_statistics(&mut u, |_| {}), "apply_update_keep_statistics")?;
            } else {
                es(g.apply_update(&mut u, |_| {}), "apply_update")?;
            }
            start = i + 1;
        }
    }
    Ok(())
}

struct Cfg {
    disk: bool,
    start: u8, // 0 empty, 1 filled, 2 filled and optimized, 3 filled and optimized to the other variant, 4 filled and reopened from disk
    eviction: Option<usize>,
}

fn one<CT: ComponentType>(run: &Run, evs: &[UpdateEvent], cuts: u32, keep: bool, cfg: &Cfg, t1: &str, t2: &str, valid: &dyn Fn(&str) -> bool, skip: &dyn Fn(&str, &str, &str) -> bool) -> Result<(), String> {
    graphannis_core::mc::set_eviction_limit(cfg.eviction);
    let dir;
    let mut g: Graph<CT> = es(Graph::with_default_graphstorages(cfg.disk), "Graph::with_default_graphstorages")?;
    let mut m = Model::default();
    if cfg.start > 0 {
        let st = start_events(t1, t2);
        for e in &st {
            m.apply(e, valid);
        }
        es(g.apply_update(&mut update(&st)?, |_| {}), "apply_update")?;
        match cfg.start {
            2 => es(g.optimize_impl(cfg.disk), "optimize_impl")?,
            3 => es(g.optimize_impl(!cfg.disk), "optimize_impl")?,
            4 => {
                dir = tmpdir("up");
                es(g.save_to(dir.path()), "save_to")?;
                g = es(Graph::new(false), "Graph::new")?;
                es(g.open(dir.path()), "open")?;
            }
            _ => (),
        }
    }
    for e in evs {
        // two nodes with the same name are not part of the model
        if let UpdateEvent::AddNodeLabel { node_name, anno_ns, anno_name, anno_value } = e
            && anno_ns == "annis"
            && anno_name == "node_name"
            && m.nodes.contains_key(node_name)
            && m.nodes.contains_key(anno_value)
        {
            return Ok(());
        }
        m.apply(e, valid);
    }
    apply_batched(&mut g, evs, cuts, keep)?;
    run.trans(evs.len() as u64);
    let m = m.normal();
    run.state(&m);
    let got = dump(&g, skip)?.normal();
    graphannis_core::mc::set_eviction_limit(None);
    same(&got, &m, "graph after the updates")
}

fn explore<CT: ComponentType>(run: &Run, name: &str, t1: &str, t2: &str, depth: usize, cfgs: &[Cfg], all_cuts: bool)
where
    <CT as FromStr>::Err: std::fmt::Debug,
{
    let valid = |t: &str| CT::from_str(t).is_ok();
    let ops = alphabet(t1, t2);
    let n = ops.len();
    for cfg in cfgs {
        let it = (1..=depth).flat_map(move |d| (0..(n as u64).pow(d as u32)).map(move |x| (d, x)));
        run.par_n(8, 64, it, |(d, mut x)| {
            let mut v = vec![0; d];
            for i in (0..d).rev() {
                v[i] = (x % n as u64) as usize;
                x /= n as u64;
            }
            let evs: Vec<UpdateEvent> = v.iter().map(|i| ops[*i].clone()).collect();
            let full = (1u32 << (d - 1)) - 1;
            let cuts: Vec<u32> = if all_cuts { (0..=full).collect() } else if d == 1 { vec![0] } else { vec![0, full] };
            for cut in cuts {
                let keep = (cut + d as u32) % 3 == 1;
                run.case(
                    || format!("{name}/disk{}/start{}/ev{:?}/cut{cut}/{}", cfg.disk, cfg.start, cfg.eviction, v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")),
                    || one::<CT>(run, &evs, cut, keep, cfg, t1, t2, &valid, if name == "core" { &no_skip } else { &is_derived }).map_err(|e| format!("{e}\n  events: {} batches cut at {cut:b}", show_all(&evs))),
                );
            }
        });
    }
}

pub fn check(run: &Run) {
    *run.rule.lock().unwrap() = "every event sequence up to the depth over 3 node names, 2 components and labels, from an empty and from filled graphs (fresh, optimized, converted, reopened), in every/two ways of batching, in memory and on disk, on the real graph; afterwards everything readable is compared with the reference graph; distinct = distinct final reference graphs".into();
    let c = |disk, start, eviction| Cfg { disk, start, eviction };
    // from an empty graph
    explore::<DefaultComponentType>(run, "core", "Edge", "Edge", run.q(3, 4), &[c(false, 0, None)], true);
    explore::<DefaultComponentType>(run, "core", "Edge", "Edge", 3, &[c(true, 0, None)], false);
    // from filled graphs
    explore::<DefaultComponentType>(run, "core", "Edge", "Edge", 3, &[c(false, 1, None)], true);
    explore::<DefaultComponentType>(run, "core", "Edge", "Edge", run.q(2, 3), &[c(false, 2, None), c(false, 3, None), c(false, 4, None)], true);
    explore::<DefaultComponentType>(run, "core", "Edge", "Edge", run.q(2, 3), &[c(true, 1, None), c(true, 2, None), c(true, 3, None), c(true, 4, None), c(true, 1, Some(2)), c(true, 4, Some(1))], true);
    // the graph type of corpora
    explore::<AnnotationComponentType>(run, "annis", "Pointing", "Dominance", run.q(2, 3), &[c(false, 1, None), c(true, 1, None), c(false, 2, None)], true);
    // long batches cross the limit of the node ID cache
    large(run);
    let _: Option<AnnotationGraph> = None;
    run.note("bounds", json!({"alphabet": alphabet("Edge", "Edge").len(), "depth_from_empty": run.q(3, 4), "depth_from_filled": run.q(2, 3)}));
}

fn large(run: &Run) {
    let mut work = vec![];
    for n in run.q(vec![999usize, 1000, 1001, 2500], vec![10, 999, 1000, 1001, 1002, 2500, 12_000]) {
        for disk in [false, true] {
            for pat in 0..4u8 {
                for batch in [usize::MAX, 700] {
                    work.push((n, disk, pat, batch));
                }
            }
        }
    }
    run.par_n(8, 1, work.into_iter(), |(n, disk, pat, batch)| {
        run.case(
            || format!("large/{n}/disk{disk}/{pat}/{batch}"),
            || {
                let x = comp("Edge", "", "x");
                let mut evs = vec![];
                let nn = |i: usize| format!("n{i}");
                for i in 0..n {
                    evs.push(add_node(&nn(i), "node"));
                    evs.push(add_label(&nn(i), "", "k", &format!("{}", i % 3)));
                    if i > 0 {
                        evs.push(add_edge(&nn(i - 1), &nn(i), &x));
                        evs.push(add_elabel(&nn(i - 1), &nn(i), &x, "", "l", &format!("{i}")));
                    }
                }
                match pat {
                    1 => {
                        for i in (0..n).step_by(2) {
                            evs.push(del_node(&nn(i)));
                        }
                        for i in (0..n).step_by(3) {
                            evs.push(add_label(&nn(i), "", "k", "new"));
                            evs.push(add_node(&nn(i), "again"));
                            evs.push(add_edge(&nn(i), &nn((i + 1) % n), &x));
                        }
                    }
                    2 => {
                        for i in 1..n {
                            evs.push(del_edge(&nn(i - 1), &nn(i), &x));
                            if i % 2 == 0 {
                                evs.push(add_edge(&nn(i - 1), &nn(i), &x));
                            }
                        }
                    }
                    3 => {
                        for i in 0..n {
                            evs.push(add_edge(&nn(i), &nn((i * 7 + 1) % n), &x));
                            if i % 5 == 0 {
                                evs.push(add_label(&nn(i), "annis", "node_name", &format!("m{i}")));
                                evs.push(add_label(&format!("m{i}"), "", "k", "renamed"));
                                evs.push(add_label(&nn(i), "", "k", "nobody"));
                            }
                        }
                    }
                    _ => (),
                }
                let mut m = Model::default();
                for e in &evs {
                    m.apply(e, &|t| t == "Edge");
                }
                let mut g: Graph<DefaultComponentType> = es(Graph::new(disk), "Graph::new")?;
                for chunk in evs.chunks(batch.min(evs.len())) {
                    if pat == 3 {
                        // the statistics need exponential time for this graph
                        es(g.apply_update_keep_statistics(&mut update(chunk)?, |_| {}), "apply_update_keep_statistics")?;
                    } else {
                        es(g.apply_update(&mut update(chunk)?, |_| {}), "apply_update")?;
                    }
                }
                run.trans(evs.len() as u64);
                run.state(&(n, disk, pat, batch));
                let got = dump(&g, &no_skip)?.normal();
                same(&got, &m.normal(), "graph after the updates").map_err(|e| e.chars().take(600).collect())
            },
        );
    });
}
