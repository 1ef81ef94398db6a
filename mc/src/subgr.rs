//! C12: subgraphs contain exactly the requested context and nothing else
use crate::aql::*;
use crate::aqlcheck::{complex, specs};
use crate::cs::*;
use crate::model::*;
use crate::must;
use crate::run::*;
use crate::updates::no_skip;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::QueryLanguage;
use graphannis::model::AnnotationComponentType;
use graphannis_core::graph::update::UpdateEvent;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

type Set = BTreeSet<String>;

fn is_index(c: &Comp) -> bool {
    c.0 == "LeftToken" || c.0 == "RightToken" || (c.0 == "Coverage" && c.1 == "annis" && !c.2.is_empty())
}

/// The part of the corpus with the given nodes
fn part(m: &Model, nodes: &Set, filter: Option<&str>) -> Model {
    let mut r = Model::default();
    for n in nodes {
        r.nodes.insert(n.clone(), m.nodes[n].clone());
    }
    for (c, es) in &m.edges {
        if !is_index(c) && filter.is_none_or(|f| f == c.0) {
            let x: BTreeMap<_, _> = es.iter().filter(|((a, b), _)| nodes.contains(a) && nodes.contains(b)).map(|(k, v)| (k.clone(), v.clone())).collect();
            if !x.is_empty() {
                r.edges.insert(c.clone(), x);
            }
        }
    }
    r
}

/// chains of a component: position of each node
fn chains(m: &Model, c: &Comp) -> Option<BTreeMap<String, (String, usize)>> {
    let es = m.edges.get(c)?;
    let mut prev = BTreeMap::new();
    let mut next = BTreeSet::new();
    for (a, b) in es.keys() {
        if prev.insert(b.clone(), a.clone()).is_some() || !next.insert(a.clone()) {
            return None;
        }
    }
    let mut r = BTreeMap::new();
    for n in es.keys().flat_map(|(a, b)| [a, b]) {
        let (mut x, mut k) = (n, 0);
        while let Some(p) = prev.get(x) {
            x = p;
            k += 1;
            if k > es.len() {
                return None;
            }
        }
        r.insert(n.clone(), (x.clone(), k));
    }
    Some(r)
}

struct Def {
    e: Entry,
    pos: BTreeMap<String, (String, usize)>,
    at: BTreeMap<(String, usize), String>,
    covers: BTreeMap<String, Set>,
    covered: BTreeMap<String, Set>,
    ancestors: BTreeMap<String, Set>,
}

fn above(m: &Model, n: &str, all: bool) -> Set {
    let mut r = Set::new();
    let mut todo = vec![n.to_string()];
    while let Some(x) = todo.pop() {
        for (c, es) in &m.edges {
            if c.0 == "PartOf" && (all || (c.1 == "annis" && c.2.is_empty())) {
                for (a, b) in es.keys() {
                    if *a == x && r.insert(b.clone()) {
                        todo.push(b.clone());
                    }
                }
            }
        }
    }
    r
}

enum Exp {
    Graph(Model),
    Error,
    Open,
}

impl Def {
    fn new(e: Entry) -> Option<Def> {
        if e.c.unclear {
            return None;
        }
        let d = crate::tokidx::derive(&e.c.m);
        let mut pos = match e.c.m.edges.get(&comp("Ordering", "annis", "")) {
            Some(_) => chains(&e.c.m, &comp("Ordering", "annis", ""))?,
            None => BTreeMap::new(),
        };
        for t in &d.token {
            pos.entry(t.clone()).or_insert((t.clone(), 0));
        }
        let mut covered: BTreeMap<String, Set> = BTreeMap::new();
        let mut covers: BTreeMap<String, Set> = BTreeMap::new();
        for (n, ts) in d.covered {
            if !d.token.contains(&n) {
                for t in &ts {
                    covers.entry(t.clone()).or_default().insert(n.clone());
                }
                covered.insert(n, ts);
            }
        }
        for t in d.token {
            covered.insert(t.clone(), [t].into());
        }
        let at = pos.iter().map(|(n, p)| (p.clone(), n.clone())).collect();
        let ancestors = e.c.m.nodes.keys().map(|n| (n.clone(), above(&e.c.m, n, false))).collect();
        Some(Def { e, pos, at, covers, covered, ancestors })
    }

    /// first and last position of token which are in one text
    fn hull<'a>(&'a self, ts: impl Iterator<Item = &'a String>) -> Option<(&'a String, usize, usize)> {
        let mut r: Option<(&String, usize, usize)> = None;
        for t in ts {
            let (x, k) = &self.pos[t];
            r = Some(match r {
                None => (x, *k, *k),
                Some((y, a, b)) if x == y => (x, a.min(*k), b.max(*k)),
                _ => return None,
            });
        }
        r
    }

    fn expected(&self, ids: &[String], l: usize, r: usize, seg: Option<&str>) -> Exp {
        let m = &self.e.c.m;
        let mut nodes = Set::new();
        let mut token = Set::new();
        if ids.iter().any(|i| !m.nodes.contains_key(i)) {
            return Exp::Error;
        }
        for id in ids {
            nodes.insert(id.clone());
            nodes.extend(self.ancestors[id].iter().cloned());
            let Some(ts) = self.covered.get(id).filter(|x| !x.is_empty()) else { continue };
            let Some((text, mut lo, mut hi)) = self.hull(ts.iter()) else { return Exp::Open };
            match seg {
                None => {
                    lo = lo.saturating_sub(l);
                    hi = hi.saturating_add(r);
                }
                Some(s) => {
                    let c = comp("Ordering", "default_ns", s);
                    if !m.edges.contains_key(&c) {
                        return Exp::Error;
                    }
                    let Some(sp) = chains(m, &c) else { return Exp::Open };
                    if ts.iter().any(|t| sp.contains_key(t)) {
                        return Exp::Open;
                    }
                    let cs: Vec<&(String, usize)> = ts.iter().flat_map(|t| self.covers.get(t).into_iter().flatten()).filter_map(|n| sp.get(n)).collect();
                    if let Some(f) = cs.first() {
                        if cs.iter().any(|x| x.0 != f.0) {
                            return Exp::Open;
                        }
                        let a = cs.iter().map(|x| x.1).min().unwrap().saturating_sub(l);
                        let b = cs.iter().map(|x| x.1).max().unwrap().saturating_add(r);
                        let at: BTreeMap<usize, &String> = sp.iter().filter(|(_, p)| p.0 == f.0).map(|(n, p)| (p.1, n)).collect();
                        let (Some((_, first)), Some((_, last))) = (at.range(a..).next(), at.range(..=b).next_back()) else { return Exp::Open };
                        let (Some(x), Some(y)) = (self.hull(self.covered.get(*first).into_iter().flatten()), self.hull(self.covered.get(*last).into_iter().flatten())) else { return Exp::Open };
                        if x.0 != text || y.0 != text {
                            return Exp::Open;
                        }
                        lo = lo.min(x.1);
                        hi = hi.max(y.2);
                    }
                }
            }
            for (k, t) in self.at.range((text.clone(), lo)..=(text.clone(), hi)) {
                debug_assert!(k.0 == *text);
                token.insert(t.clone());
            }
        }
        for t in &token {
            nodes.extend(self.covers.get(t).into_iter().flatten().cloned());
        }
        nodes.extend(token.iter().cloned());
        let mut g = part(m, &nodes, None);
        // gaps
        let ps: BTreeSet<&(String, usize)> = token.iter().map(|t| &self.pos[t]).collect();
        let ps: Vec<_> = ps.into_iter().collect();
        for w in ps.windows(2) {
            if w[0].0 == w[1].0 && w[0].1 + 1 < w[1].1 {
                g.edges.entry(comp("Ordering", "annis", "datasource-gap")).or_default().insert((self.at[w[0]].clone(), self.at[w[1]].clone()), Labels::new());
            }
        }
        Exp::Graph(g)
    }
}

fn read(g: &graphannis::AnnotationGraph) -> Result<Model, String> {
    Ok(dump(g, &no_skip)?.normal())
}

fn check_one(run: &Run, cs: &CorpusStorage, d: &Def, ids: &[String], l: usize, r: usize, seg: Option<&str>) -> Result<(), String> {
    let what = || format!("subgraph of {ids:?} with context {l},{r} and segmentation {seg:?} of {}", d.e.name);
    let exp = d.expected(ids, l, r, seg);
    let got = cs.subgraph(d.e.name, ids.to_vec(), l, r, seg.map(|s| s.to_string()));
    run.trans(1);
    match (exp, got) {
        (Exp::Open, _) => Ok(()),
        (Exp::Error, Err(_)) => Ok(()),
        (Exp::Error, Ok(_)) => Err(format!("{}: an error was expected", what())),
        (Exp::Graph(_), Err(e)) => Err(format!("{}: {e}", what())),
        (Exp::Graph(m), Ok(g)) => {
            run.state(&m);
            run.outcome(&(m.nodes.len(), m.edges.len()));
            same(&read(&g).map_err(|e| format!("{}: {e}", what()))?, &m, &what())
        }
    }
}

/// Two texts in one document with spans, gaps and data sources
fn gaps() -> Vec<UpdateEvent> {
    let po = comp("PartOf", "annis", "");
    let cov = comp("Coverage", "annis", "");
    let seg = comp("Ordering", "default_ns", "norm");
    let mut r = vec![add_node("c", "corpus"), add_node("d", "corpus"), add_edge("d", "c", &po), add_label("d", "annis", "doc", "d")];
    for t in ["x", "y"] {
        let ds = format!("text{t}");
        r.push(add_node(&ds, "datasource"));
        r.push(add_edge(&ds, "d", &po));
        let k = if t == "x" { 9 } else { 5 };
        for i in 0..k {
            let n = format!("{t}{i}");
            r.push(add_node(&n, "node"));
            r.push(add_edge(&n, &ds, &po));
            r.push(add_label(&n, "annis", "tok", "w"));
            if i > 0 {
                r.push(add_edge(&format!("{t}{}", i - 1), &n, &comp("Ordering", "annis", "")));
            }
        }
        // segmentation which leaves out some token
        let mut last = String::new();
        for (i, ts) in if t == "x" { vec![vec![0], vec![2, 3], vec![5], vec![8]] } else { vec![vec![1], vec![2, 3]] }.iter().enumerate() {
            let n = format!("g{t}{i}");
            r.push(add_node(&n, "node"));
            r.push(add_edge(&n, &ds, &po));
            r.push(add_label(&n, "annis", "tok", "W"));
            for j in ts {
                r.push(add_edge(&n, &format!("{t}{j}"), &cov));
            }
            if i > 0 {
                r.push(add_edge(&last, &n, &seg));
            }
            last = n;
        }
    }
    for (n, ts) in [("s1", vec!["x1", "x2"]), ("s2", vec!["x4", "x6"]), ("s3", vec!["x6", "x7", "x8"]), ("s4", vec!["y0", "y4"]), ("s5", vec!["x0"])] {
        r.push(add_node(n, "node"));
        r.push(add_edge(n, "d", &po));
        for t in ts {
            r.push(add_edge(n, t, &cov));
        }
        r.push(add_elabel("s1", "s2", &comp("Pointing", "", "p"), "", "l", "v"));
    }
    for (a, b, t) in [("h1", "s1", true), ("h1", "s2", false), ("h2", "h1", true)] {
        r.push(add_node(a, "node"));
        r.push(add_edge(a, "d", &po));
        r.push(add_edge(a, b, &comp("Dominance", "l", "")));
        if t {
            r.push(add_edge(a, b, &comp("Dominance", "l", "edge")));
            r.push(add_elabel(a, b, &comp("Dominance", "l", "edge"), "n", "func", "f"));
        }
    }
    r.push(add_edge("s2", "s1", &comp("Pointing", "", "p")));
    r.push(add_elabel("s2", "s1", &comp("Pointing", "", "p"), "", "l", "v"));
    r
}

/// the same content, with the nodes created in reverse order
fn reversed(evs: &[UpdateEvent]) -> Vec<UpdateEvent> {
    let (mut a, b): (Vec<_>, Vec<_>) = evs.iter().cloned().partition(|e| matches!(e, UpdateEvent::AddNode { .. }));
    a.reverse();
    a.extend(b);
    a
}

fn defs() -> Vec<Def> {
    let mut r = vec![];
    let es = entries().into_iter().chain([entry("gaps", gaps())]);
    for e in es {
        if e.name == "big" {
            continue;
        }
        let rev: &'static str = Box::leak(format!("{}-r", e.name).into_boxed_str());
        let evs = reversed(&e.evs);
        let mut m = Model::default();
        evs.iter().for_each(|x| m.apply(x, &|_| true));
        r.extend(Def::new(Entry { name: rev, evs, c: Corpus::new(&m) }));
        r.extend(Def::new(e));
    }
    r
}

const TYPES: [AnnotationComponentType; 7] = [
    AnnotationComponentType::Coverage,
    AnnotationComponentType::Dominance,
    AnnotationComponentType::Pointing,
    AnnotationComponentType::Ordering,
    AnnotationComponentType::LeftToken,
    AnnotationComponentType::RightToken,
    AnnotationComponentType::PartOf,
];

fn check_query(run: &Run, cs: &CorpusStorage, d: &Def, alts: &[Conj]) -> Result<(), String> {
    let text = query_text(alts);
    let (must, may) = d.e.c.query(alts);
    if !may.is_empty() && must != may {
        return Ok(());
    }
    let nodes: Set = must.iter().flatten().map(|x| x.0.clone()).collect();
    for (i, f) in [None].into_iter().chain(TYPES.into_iter().map(Some)).enumerate() {
        let what = || format!("subgraph for query {text:?} with component type {f:?} of {}", d.e.name);
        // load state should not matter
        if i == text.len() % 8 {
            es(cs.unload(d.e.name), "unload")?;
        }
        let g = es(cs.subgraph_for_query(d.e.name, &text, QueryLanguage::AQL, f.clone()), &what())?;
        run.trans(1);
        let m = part(&d.e.c.m, &nodes, f.as_ref().map(|x| x.to_string()).as_deref());
        run.state(&m);
        same(&read(&g).map_err(|e| format!("{}: {e}", what()))?, &m, &what())?;
    }
    Ok(())
}

pub fn check(run: &Run) {
    *run.rule.lock().unwrap() = "for every corpus, storage variant, order of node creation and segmentation: every set of up to 2 (small corpora: 3) nodes (also unknown ones) with every context width of 0, 1, 2, 3 and more than the text, left and right; the subgraphs for queries with every type filter, for every set of up to 2 corpora or documents and of the corpus structure; distinct = expected graphs".into();
    let ds = defs();
    let full = !run.q(true, false);
    let sp = specs(false);
    let mut qs: Vec<Vec<Conj>> = specs(true).into_iter().map(|s| vec![Conj { nodes: vec![n(s)], lits: vec![] }]).collect();
    qs.extend(complex(false).into_iter().step_by(run.q(800, 10)));
    qs.push(vec![Conj { nodes: vec![n(sp[1])], lits: vec![] }, Conj { nodes: vec![n(sp[1]), n(sp[0])], lits: vec![Lit::Bin(0, Op::Prec(None, ALL), 1, false)] }]);
    if !full {
        qs.retain(|q| q.len() > 1 || q[0].nodes.len() > 1 || query_text(q).len() % 3 == 0);
    }
    let mut work = vec![];
    for d in &ds {
        for disk in [false, true] {
            let segs: Vec<Option<&'static str>> = vec![None, Some("dipl"), Some("norm"), Some("none")];
            for s in segs {
                let has = s.is_some_and(|s| d.e.c.m.edges.contains_key(&comp("Ordering", "default_ns", s)));
                work.push((d, disk, s, s.is_none() || has));
            }
        }
    }
    run.par_n(8, 1, work.into_iter(), |(d, disk, seg, deep)| {
        let dir = tmpdir("c12");
        let r = guarded(|| {
            let cs = open(dir.path(), false)?;
            create(&cs, d.e.name, &d.e.evs, disk)?;
            if disk {
                es(cs.reoptimize_implementation(d.e.name, true), "reoptimize")?;
            }
            let var = format!("{}/{}", d.e.name, if disk { "disk" } else { "mem" });
            let mut all: Vec<String> = d.e.c.names.clone();
            all.push("unknown".into());
            let mut sets: Vec<Vec<String>> = vec![vec![]];
            for (i, a) in all.iter().enumerate() {
                sets.push(vec![a.clone()]);
                if deep {
                    for (j, b) in all.iter().enumerate() {
                        if full || j > i || (i + j) % 3 == 0 {
                            sets.push(vec![a.clone(), b.clone()]);
                        }
                        for c in &all[j..] {
                            if j > i && (full || all.len() < 12 || d.e.name.starts_with("gaps") && (a.len() + b.len() + c.len()) % 4 == 0) {
                                sets.push(vec![a.clone(), b.clone(), c.clone()]);
                            }
                        }
                    }
                }
            }
            let ws: &[usize] = if full { &[0, 1, 2, 3, 5, 100] } else { &[0, 1, 2, 100] };
            for ids in &sets {
                run.case(
                    || format!("{var}/{seg:?}/{ids:?}"),
                    || {
                        for l in ws {
                            for r in ws {
                                if full || ids.len() < 2 || (l + r + ids[0].len()) % 3 == 0 {
                                    check_one(run, &cs, d, ids, *l, *r, seg)?;
                                }
                            }
                        }
                        if ids.len() == 1 {
                            for (l, r) in [(1_000_000_000, 0), (0, 1_000_000_000), (usize::MAX, usize::MAX)] {
                                check_one(run, &cs, d, ids, l, r, seg)?;
                            }
                        }
                        Ok(())
                    },
                );
            }
            if seg.is_some() {
                return Ok(());
            }
            for alts in &qs {
                run.case(|| format!("{var}/query/{}", query_text(alts)), || check_query(run, &cs, d, alts));
            }
            // documents
            let m = &d.e.c.m;
            let kind = |n: &String| m.nodes[n].get(&q("annis", "node_type")).map(|x| x.as_str());
            let mut ids: Vec<String> = m.nodes.keys().filter(|n| kind(n) != Some("node")).cloned().collect();
            ids.push("unknown".into());
            ids.extend(m.nodes.keys().filter(|n| kind(n) == Some("node")).take(1).cloned());
            for a in &ids {
                for b in &ids {
                    for prefix in ["", "salt:/"] {
                        run.case(
                            || format!("{var}/documents/{prefix}{a}/{b}"),
                            || {
                                let mut x = vec![format!("{prefix}{a}")];
                                if a != b {
                                    x.push(b.clone());
                                }
                                let nodes: Set = m.nodes.keys().filter(|n| matches!(kind(n), Some("node" | "datasource")) && (above(m, n, true).contains(a) || above(m, n, true).contains(b))).cloned().collect();
                                let g = es(cs.subcorpus_graph(d.e.name, x.clone()), "subcorpus_graph")?;
                                run.trans(1);
                                let m = part(m, &nodes, None);
                                run.state(&m);
                                same(&read(&g)?, &m, &format!("subcorpus graph of {x:?} in {}", d.e.name))
                            },
                        );
                    }
                }
            }
            run.case(
                || format!("{var}/structure"),
                || {
                    es(cs.unload(d.e.name), "unload")?;
                    let nodes: Set = m.nodes.keys().filter(|n| kind(n) == Some("corpus")).cloned().collect();
                    let g = es(cs.corpus_graph(d.e.name), "corpus_graph")?;
                    run.trans(1);
                    let m = part(m, &nodes, Some("PartOf"));
                    run.state(&m);
                    must!(true, "");
                    same(&read(&g)?, &m, &format!("corpus graph of {}", d.e.name))
                },
            );
            Ok(())
        });
        if let Err(e) = r {
            run.case(|| format!("setup/{}/{seg:?}", d.e.name), || Err(e));
        }
    });
    run.note("bounds", json!({"corpora": ds.len(), "queries": qs.len(), "nodes of a match": run.q("1-2, some 3", "1-3")}));
}
