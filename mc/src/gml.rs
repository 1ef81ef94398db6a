//! C16: GraphML export and import are inverse to each other.
use crate::model::*;
use crate::run::*;
use crate::updates::{alphabet, is_derived, no_skip, start_events};
use crate::{must, must_eq};
use graphannis::model::AnnotationComponentType;
use graphannis_core::graph::Graph;
use graphannis_core::graph::serialization::graphml;
use graphannis_core::graph::update::UpdateEvent;
use graphannis_core::types::{ComponentType, DefaultComponentType};
use std::collections::HashMap;
use std::str::FromStr;
use std::sync::Mutex;

fn text<CT: ComponentType>(g: &Graph<CT>, config: Option<&str>, stable: bool) -> Result<Vec<u8>, String> {
    let mut r = vec![];
    es(if stable { graphml::export_stable_order(g, config, &mut r, |_| {}) } else { graphml::export(g, config, &mut r, |_| {}) }, "export")?;
    Ok(r)
}

/// Nodes without a type get the default one
fn typed(m: &Model) -> Model {
    let mut m = m.clone().normal();
    for l in m.nodes.values_mut() {
        l.entry(q("annis", "node_type")).or_insert("node".into());
    }
    m
}

/// Export in both ways, import in both variants and compare. Returns the text with stable order.
fn round<CT: ComponentType>(g: &Graph<CT>, config: Option<&str>, m: &Model, disk: bool, skip: &dyn Fn(&str, &str, &str) -> bool) -> Result<Vec<u8>, String> {
    let all_typed = typed(m) == m.clone().normal();
    let m = typed(m);
    let stable = text(g, config, true)?;
    for (b, what) in [(text(g, config, false)?, "export"), (stable.clone(), "sorted export")] {
        let r = graphml::import::<CT, _, _>(&b[..], disk, |_| {});
        let (g2, c2) = r.map_err(|e| format!("import of {what} returned error: {e}\n{}", String::from_utf8_lossy(&b)))?;
        same(&dump(&g2, skip)?.normal(), &m, &format!("graph after {what} and import"))?;
        must_eq!(c2.as_deref(), config, "configuration after {what} and import");
        if what == "sorted export" && all_typed {
            must!(text(&g2, config, true)? == stable, "sorted export of the imported graph differs");
        }
    }
    Ok(stable)
}

fn graph<CT: ComponentType>(evs: &[UpdateEvent], disk: bool, valid: &dyn Fn(&str) -> bool) -> Result<(Graph<CT>, Model), String> {
    let mut m = Model::default();
    for e in evs {
        m.apply(e, valid);
    }
    let mut g: Graph<CT> = es(Graph::with_default_graphstorages(disk), "new")?;
    es(g.apply_update(&mut update(evs)?, |_| {}), "apply_update")?;
    Ok((g, m))
}

const ITEMS: [&str; 26] = ["a", "&", "<", ">", "\"", "'", "%", "%26", "%3A", "&amp;", "&#10;", ":", "::", "/", "%2F", " ", "\n", "\t", "\r", "ä", "日", "\u{10FFFF}", "]]>", "<!--", "\\", "k0"];
const WHERE: [&str; 11] = ["node name", "node type", "label ns", "label name", "label value", "edge label ns", "edge label name", "edge label value", "layer", "component name", "configuration"];

fn events_with(v: &[String; 11]) -> Vec<UpdateEvent> {
    let c = comp("Pointing", &v[8], &v[9]);
    let n = v[0].as_str();
    vec![
        add_node(n, &v[1]),
        add_node("other", "node"),
        add_label(n, &v[2], &v[3], &v[4]),
        add_label("other", "z", "z", "z"),
        add_edge(n, "other", &c),
        add_edge("other", n, &comp("Dominance", "l", "m")),
        add_elabel(n, "other", &c, &v[5], &v[6], &v[7]),
        add_elabel("other", n, &comp("Dominance", "l", "m"), "z", "z", "y"),
    ]
}

fn defaults() -> [String; 11] {
    ["n", "node", "ns", "k", "v", "ens", "ek", "ev", "lay", "comp", "[view]\n"].map(|x| x.to_string())
}

fn strings(run: &Run) {
    let mut all: Vec<(Vec<(usize, String)>, bool)> = vec![];
    let mut two: Vec<String> = vec![String::new()];
    for a in ITEMS {
        two.push(a.into());
        for b in ITEMS {
            two.push(format!("{a}{b}"));
            if run.q(false, true) {
                for c in ITEMS {
                    two.push(format!("{a}{b}{c}"));
                }
            }
        }
    }
    for w in 0..11 {
        for t in &two {
            all.push((vec![(w, t.clone())], false));
            if t.len() < 4 {
                all.push((vec![(w, t.clone())], true));
            }
        }
        for w2 in 0..w {
            for a in ITEMS.iter().chain([&""]) {
                for b in ITEMS.iter().chain([&""]) {
                    if run.q(*a == *b || a.len() + b.len() < 3, true) {
                        all.push((vec![(w, a.to_string()), (w2, b.to_string())], false));
                    }
                }
            }
        }
    }
    run.note("strings", all.len());
    let valid = |t: &str| AnnotationComponentType::from_str(t).is_ok();
    run.par_n(8, 32, all.into_iter(), |(ch, disk)| {
        // names of nodes are not empty
        if ch.iter().any(|(w, t)| *w == 0 && t.is_empty()) {
            return;
        }
        run.case(
            || format!("{} disk {disk}", ch.iter().map(|(w, t)| format!("{} {t:?}", WHERE[*w])).collect::<Vec<_>>().join(", ")),
            || {
                let mut v = defaults();
                for (w, t) in &ch {
                    v[*w] = t.clone();
                }
                let (g, m) = graph::<AnnotationComponentType>(&events_with(&v), disk, &valid)?;
                run.trans(4);
                run.state(&(&m, &v[10]));
                round(&g, Some(&v[10]), &m, disk, &is_derived)?;
                Ok(())
            },
        )
    });
}

fn pairs(run: &Run) {
    let valid = |t: &str| AnnotationComponentType::from_str(t).is_ok();
    let k = ["", "a", "a::b", "a:b", ":", "::", "%3A", "b", "%", "annis", "tok", "configuration"];
    let l = ["", "a", "a/b", "/", "b", "%2F", "a%2Fb", "%"];
    let keys: Vec<Qn> = k.iter().flat_map(|a| k.iter().map(|b| q(a, b))).filter(|x| !x.1.is_empty()).collect();
    let layers: Vec<Qn> = l.iter().flat_map(|a| l.iter().map(|b| q(a, b))).collect();
    let mut all = vec![];
    for (set, edge) in [(&keys, false), (&layers, true)] {
        for i in 0..set.len() {
            for j in 0..i {
                all.push((set[i].clone(), set[j].clone(), edge));
            }
        }
    }
    run.par_n(8, 32, all.into_iter(), |(x, y, edge)| {
        run.case(
            || format!("{} {x:?} and {y:?}", if edge { "components" } else { "labels" }),
            || {
                let mut evs = vec![add_node("n", "node"), add_node("o", "node")];
                for (i, z) in [&x, &y].into_iter().enumerate() {
                    if edge {
                        evs.push(add_edge("n", "o", &comp("Pointing", &z.0, &z.1)));
                        evs.push(add_elabel("n", "o", &comp("Pointing", &z.0, &z.1), "", "l", &i.to_string()));
                    } else {
                        evs.push(add_label("n", &z.0, &z.1, &i.to_string()));
                        evs.push(add_edge("n", "o", &comp("Pointing", "", "p")));
                        evs.push(add_elabel("n", "o", &comp("Pointing", "", "p"), &z.0, &z.1, &i.to_string()));
                    }
                }
                let (g, m) = graph::<AnnotationComponentType>(&evs, false, &valid)?;
                run.trans(4);
                run.state(&m);
                round(&g, None, &m, false, &is_derived)?;
                Ok(())
            },
        )
    });
}

/// All histories: content, and the text of the sorted export does not depend on the implementation
fn histories<CT: ComponentType>(run: &Run, name: &str, t1: &str, t2: &str, depth: usize)
where
    <CT as FromStr>::Err: std::fmt::Debug,
{
    let valid = |t: &str| CT::from_str(t).is_ok();
    let skip: &(dyn Fn(&str, &str, &str) -> bool + Sync) = if name == "core" { &no_skip } else { &is_derived };
    let mut ops = alphabet(t1, t2);
    ops.push(del_label("a", "annis", "node_type"));
    let n = ops.len() as u64;
    let texts: Mutex<HashMap<(bool, String), Vec<u8>>> = Mutex::new(HashMap::new());
    for (start, disk, opt) in [(false, false, false), (true, false, false), (true, true, false), (true, false, true)] {
        let it = (1..=depth).flat_map(move |d| (0..n.pow(d as u32)).map(move |x| (d, x)));
        run.par_n(8, 32, it, |(d, mut x)| {
            let mut evs: Vec<UpdateEvent> = vec![];
            let mut id = vec![];
            for _ in 0..d {
                id.push((x % n).to_string());
                evs.push(ops[(x % n) as usize].clone());
                x /= n;
            }
            run.case(
                || format!("{name} start {start} disk {disk} optimized {opt} {}", id.join(".")),
                || {
                    let mut all = if start { start_events(t1, t2) } else { vec![] };
                    all.extend(evs.iter().cloned());
                    let mut m = Model::default();
                    for e in &all {
                        if let UpdateEvent::AddNodeLabel { node_name, anno_name, anno_value, .. } = e
                            && anno_name == "node_name"
                            && m.nodes.contains_key(node_name)
                            && m.nodes.contains_key(anno_value)
                        {
                            return Ok(());
                        }
                        m.apply(e, &valid);
                    }
                    let (mut g, m) = graph::<CT>(&all, disk, &valid)?;
                    if opt {
                        es(g.calculate_all_statistics(), "calculate_all_statistics")?;
                        es(g.optimize_impl(disk), "optimize_impl")?;
                    }
                    run.trans(4);
                    run.state(&m);
                    let t = round(&g, None, &m, disk, skip).map_err(|e| format!("{e}\n  events: {}", show_all(&all)))?;
                    let mut texts = texts.lock().unwrap();
                    let key = (start, show_all(&evs));
                    if let Some(o) = texts.get(&key) {
                        must!(*o == t, "sorted export differs from the one of the graph in another implementation:\n{}\n{}", String::from_utf8_lossy(o), String::from_utf8_lossy(&t));
                    } else {
                        texts.insert(key, t);
                    }
                    Ok(())
                },
            )
        });
    }
}

/// A graph of which only some components are loaded is exported completely or not at all
fn partial(run: &Run) {
    for bits in 0..8u32 {
        for stable in [false, true] {
            run.case(
                || format!("partially loaded {bits} {stable}"),
                || {
                    let cs = [comp("Pointing", "", "p"), comp("Dominance", "", "d"), comp("Pointing", "q", "r")];
                    let mut evs = vec![add_node("a", "node"), add_node("b", "node")];
                    for c in &cs {
                        evs.push(add_edge("a", "b", c));
                        evs.push(add_elabel("a", "b", c, "n", "l", "v"));
                    }
                    let (mut g, m) = graph::<AnnotationComponentType>(&evs, false, &|_| true)?;
                    let dir = tmpdir("gml");
                    es(g.save_to(dir.path()), "save_to")?;
                    let mut g: Graph<AnnotationComponentType> = es(Graph::new(false), "new")?;
                    es(g.open(dir.path()), "open")?;
                    for c in g.get_all_components(None, None) {
                        if let Some(i) = cs.iter().position(|x| *x == (c.get_type().to_string(), c.layer.to_string(), c.name.to_string()))
                            && bits >> i & 1 == 0
                        {
                            continue;
                        }
                        es(g.ensure_loaded(&c), "ensure_loaded")?;
                    }
                    let Ok(t) = text(&g, None, stable) else { return Ok(()) };
                    let (g2, _) = es(graphml::import::<AnnotationComponentType, _, _>(&t[..], false, |_| {}), "import")?;
                    same(&dump(&g2, &is_derived)?.normal(), &typed(&m), "export of a partially loaded graph")
                },
            )
        }
    }
}

pub fn check(run: &'static Run) {
    *run.rule.lock().unwrap() = "every string of up to 2 items of an alphabet of XML, separator, escape, whitespace and multi-byte characters at each of 11 positions (names, namespaces, values, layers, configuration), pairs of positions, pairs of qualified names and components that could be confused, and every update history to the depth for both component models, storage variants and optimized: exported in both ways, imported, content and configuration compared; sorted export compared between implementations and after import. distinct = distinct contents".into();
    partial(run);
    pairs(run);
    strings(run);
    histories::<DefaultComponentType>(run, "core", "Edge", "Edge", run.q(2, 3));
    histories::<AnnotationComponentType>(run, "annis", "Pointing", "Dominance", run.q(2, 3));
    let _ = no_skip;
}
