//! Corpora in a real corpus storage, together with their definition.
use crate::aql::*;
use crate::aqlcheck::corpora;
use crate::model::*;
use crate::run::*;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::{CacheStrategy, QueryLanguage, ResultOrder, SearchQuery};
use graphannis_core::graph::update::UpdateEvent;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::path::Path;

pub fn map_names(e: &UpdateEvent, f: &dyn Fn(&str) -> String) -> UpdateEvent {
    let mut e = e.clone();
    match &mut e {
        UpdateEvent::AddNode { node_name, .. } | UpdateEvent::DeleteNode { node_name } | UpdateEvent::AddNodeLabel { node_name, .. } | UpdateEvent::DeleteNodeLabel { node_name, .. } => *node_name = f(node_name),
        UpdateEvent::AddEdge { source_node, target_node, .. }
        | UpdateEvent::DeleteEdge { source_node, target_node, .. }
        | UpdateEvent::AddEdgeLabel { source_node, target_node, .. }
        | UpdateEvent::DeleteEdgeLabel { source_node, target_node, .. } => {
            *source_node = f(source_node);
            *target_node = f(target_node);
        }
    }
    e
}

/// Node names as the importers assign them: path of the document and name in the document
pub fn with_paths(evs: &[UpdateEvent]) -> Vec<UpdateEvent> {
    let mut corpus = BTreeMap::new();
    let mut parent = BTreeMap::new();
    for e in evs {
        match e {
            UpdateEvent::AddNode { node_name, node_type } => {
                corpus.insert(node_name.clone(), node_type == "corpus");
            }
            UpdateEvent::AddEdge { source_node, target_node, component_type, .. } if component_type == "PartOf" => {
                parent.insert(source_node.clone(), target_node.clone());
            }
            _ => {}
        }
    }
    fn name(n: &str, corpus: &BTreeMap<String, bool>, parent: &BTreeMap<String, String>) -> String {
        match parent.get(n) {
            Some(p) => format!("{}{}{n}", name(p, corpus, parent), if corpus.get(n) == Some(&true) { "/" } else { "#" }),
            None => n.to_string(),
        }
    }
    evs.iter().map(|e| map_names(e, &|n| name(n, &corpus, &parent))).collect()
}

pub fn open(dir: &Path, parallel: bool) -> Result<CorpusStorage, String> {
    es(CorpusStorage::with_cache_strategy(dir, CacheStrategy::FixedMaxMemory(4000), parallel), "with_cache_strategy")
}

pub fn create(cs: &CorpusStorage, name: &str, evs: &[UpdateEvent], disk: bool) -> Result<(), String> {
    es(cs.create_empty_corpus(name, disk), "create_empty_corpus")?;
    es(cs.apply_update(name, &mut update(evs)?), "apply_update")
}

pub fn query<'a>(names: &'a [&'a str], text: &'a str) -> SearchQuery<'a, &'a str> {
    SearchQuery { corpus_names: names, query: text, query_language: QueryLanguage::AQL, timeout: None }
}

pub fn find(cs: &CorpusStorage, names: &[&str], text: &str, offset: usize, limit: Option<usize>, order: ResultOrder) -> Result<Vec<String>, String> {
    es(cs.find(query(names, text), offset, limit, order), "find")
}

/// the identifiers of a match as reported by `find`
pub fn match_id(t: &[M]) -> String {
    t.iter()
        .map(|(n, k)| {
            if *k == q("annis", "node_type") {
                n.clone()
            } else if k.0.is_empty() {
                format!("{}::{n}", k.1)
            } else {
                format!("{}::{}::{n}", k.0, k.1)
            }
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn parts(n: &str) -> (Vec<&str>, &str) {
    let (p, x) = n.rsplit_once('#').unwrap_or((n, ""));
    (p.split('/').filter(|x| !x.is_empty()).collect(), x)
}

/// Position of the nodes in the text: for nodes that cover token the name of the first token of
/// the text and the number of token before the first covered one
pub struct TextPos(pub BTreeMap<String, (String, usize)>);

impl TextPos {
    /// None if the order is not a set of separate texts
    pub fn new(c: &Corpus) -> Option<TextPos> {
        let empty = BTreeMap::new();
        let es = c.m.edges.get(&comp("Ordering", "annis", "")).unwrap_or(&empty);
        let mut prev = BTreeMap::new();
        let mut next = BTreeMap::new();
        for (a, b) in es.keys() {
            if prev.insert(b, a).is_some() || next.insert(a, b).is_some() {
                return None;
            }
        }
        let mut r = BTreeMap::new();
        for n in &c.names {
            if let Some(l) = c.left_of(n) {
                let mut x = l;
                let mut k = 0;
                while let Some(p) = prev.get(x) {
                    x = p;
                    k += 1;
                    if k > c.names.len() {
                        return None;
                    }
                }
                r.insert(n.clone(), (x.clone(), k));
            }
        }
        Some(TextPos(r))
    }

    fn cmp_one(&self, a: &M, b: &M) -> Ordering {
        if a.0 == b.0 {
            return (&a.1.1, &a.1.0).cmp(&(&b.1.1, &b.1.0));
        }
        let (pa, na) = parts(&a.0);
        let (pb, nb) = parts(&b.0);
        pa.cmp(&pb).then_with(|| self.0.get(&a.0).cmp(&self.0.get(&b.0))).then_with(|| na.cmp(nb))
    }
    pub fn cmp(&self, a: &[M], b: &[M]) -> Ordering {
        for (x, y) in a.iter().zip(b) {
            let r = self.cmp_one(x, y);
            if r != Ordering::Equal {
                return r;
            }
        }
        b.len().cmp(&a.len())
    }
}

/// A corpus in which the joins have more candidates than they buffer
pub fn big() -> Vec<UpdateEvent> {
    let mut r = vec![add_node("c", "corpus"), add_node("d", "corpus"), add_label("d", "annis", "doc", "d"), add_edge("d", "c", &comp("PartOf", "annis", ""))];
    let n = 44;
    let name = |i: usize| format!("t{i}");
    let put = |r: &mut Vec<UpdateEvent>, x: &str| {
        r.push(add_node(x, "node"));
        r.push(add_edge(x, "d", &comp("PartOf", "annis", "")));
    };
    for i in 0..n {
        put(&mut r, &name(i));
        r.push(add_label(&name(i), "annis", "tok", ["a", "b", "c"][i % 3]));
        if i % 2 == 0 {
            r.push(add_label(&name(i), "n", "pos", ["X", "Y"][i / 2 % 2]));
        }
        if i > 0 {
            r.push(add_edge(&name(i - 1), &name(i), &comp("Ordering", "annis", "")));
        }
        if i % 5 == 4 {
            r.push(add_edge(&name(i), &name(i - 3), &comp("Pointing", "p", "dep")));
            r.push(add_elabel(&name(i), &name(i - 3), &comp("Pointing", "p", "dep"), "n", "func", "obj"));
        }
    }
    for i in 0..14 {
        let s = format!("s{i}");
        put(&mut r, &s);
        r.push(add_label(&s, "n", "cat", ["S", "T"][i % 2]));
        for j in 0..(1 + i % 5) {
            r.push(add_edge(&s, &name((i * 3 + j) % n), &comp(if i % 3 == 0 { "Dominance" } else { "Coverage" }, if i % 3 == 0 { "l" } else { "annis" }, "")));
        }
    }
    r
}

/// Two texts in one document, nodes without text, names not in text order
pub fn texts() -> Vec<UpdateEvent> {
    let mut r = vec![];
    let po = comp("PartOf", "annis", "");
    r.push(add_node("c", "corpus"));
    for d in ["d10", "d9"] {
        r.push(add_node(d, "corpus"));
        r.push(add_label(d, "annis", "doc", d));
        r.push(add_edge(d, "c", &po));
        for t in [["x", "c", "a"], ["b", "y", "w"]] {
            for (i, x) in t.iter().enumerate() {
                let n = format!("{x}{}", &d[1..]);
                r.push(add_node(&n, "node"));
                r.push(add_edge(&n, d, &po));
                r.push(add_label(&n, "annis", "tok", if *x == "a" || *x == "b" { "a" } else { "b" }));
                r.push(add_label(&n, "n", "pos", if i == 1 { "X" } else { "Y" }));
                if i == 1 {
                    r.push(add_label(&n, "m", "pos", "X"));
                }
                if i > 0 {
                    r.push(add_edge(&format!("{}{}", t[i - 1], &d[1..]), &n, &comp("Ordering", "annis", "")));
                }
            }
        }
        // nodes without text and a node over each text
        for (x, over) in [("n", vec![]), ("0", vec![]), ("z", vec!["c", "a"]), ("k", vec!["y", "w"])] {
            let n = format!("{x}{}", &d[1..]);
            r.push(add_node(&n, "node"));
            r.push(add_edge(&n, d, &po));
            r.push(add_label(&n, "n", "cat", "S"));
            for o in over {
                r.push(add_edge(&n, &format!("{o}{}", &d[1..]), &comp("Coverage", "annis", "")));
            }
        }
    }
    r
}

/// Texts with only one token next to longer ones
pub fn single() -> Vec<UpdateEvent> {
    let mut r = vec![];
    for (d, k) in [("d1", 1), ("d2", 1), ("d3", 3)] {
        r.push(add_node(d, "corpus"));
        r.push(add_label(d, "annis", "doc", d));
        let x = &d[1..];
        for i in 0..k {
            let n = format!("t{x}{i}");
            r.push(add_node(&n, "node"));
            r.push(add_edge(&n, d, &comp("PartOf", "annis", "")));
            r.push(add_label(&n, "annis", "tok", ["a", "b", "a"][i]));
            r.push(add_label(&n, "n", "pos", "X"));
            if i > 0 {
                r.push(add_edge(&format!("t{x}{}", i - 1), &n, &comp("Ordering", "annis", "")));
            }
        }
        for (s, ty) in [("s", "Coverage"), ("u", "Coverage"), ("v", "Dominance")] {
            let n = format!("{s}{x}");
            r.push(add_node(&n, "node"));
            r.push(add_edge(&n, d, &comp("PartOf", "annis", "")));
            r.push(add_label(&n, "n", "cat", "S"));
            r.push(add_edge(&n, &format!("t{x}0"), &if ty == "Coverage" { comp(ty, "annis", "") } else { comp(ty, "l", "") }));
        }
        r.push(add_edge(&format!("s{x}"), &format!("t{x}0"), &comp("Pointing", "p", "dep")));
    }
    r
}

pub struct Entry {
    pub name: &'static str,
    pub evs: Vec<UpdateEvent>,
    pub c: Corpus,
}

/// many results in several documents and texts, with names in another order than the text
pub fn big_texts() -> Vec<UpdateEvent> {
    let mut r = vec![];
    let po = comp("PartOf", "annis", "");
    r.push(add_node("c", "corpus"));
    for d in ["d1", "d2"] {
        r.push(add_node(d, "corpus"));
        r.push(add_label(d, "annis", "doc", d));
        r.push(add_edge(d, "c", &po));
        for t in 0..2 {
            for i in 0..8u32 {
                let name = |i: u32| format!("{}{t}{d}", (b'a' + (i * 5 % 8) as u8) as char);
                let n = name(i);
                r.push(add_node(&n, "node"));
                r.push(add_edge(&n, d, &po));
                r.push(add_label(&n, "annis", "tok", ["a", "b"][(i % 2) as usize]));
                if i % 3 == 0 {
                    r.push(add_label(&n, "n", "pos", "X"));
                }
                if i > 0 {
                    r.push(add_edge(&name(i - 1), &n, &comp("Ordering", "annis", "")));
                }
                if i % 2 == 0 {
                    let s = format!("s{}", name(7 - i));
                    r.push(add_node(&s, "node"));
                    r.push(add_edge(&s, d, &po));
                    r.push(add_label(&s, "n", "cat", "S"));
                    if i != 4 {
                        r.push(add_edge(&s, &n, &comp("Coverage", "annis", "")));
                    }
                }
            }
        }
    }
    r
}

pub fn entry(name: &'static str, evs: Vec<UpdateEvent>) -> Entry {
    let evs = with_paths(&evs);
    let mut m = Model::default();
    for e in &evs {
        m.apply(e, &|_| true);
    }
    Entry { name, evs, c: Corpus::new(&m) }
}

/// all corpora with node names as used by the importers
pub fn entries() -> Vec<Entry> {
    let mut r: Vec<(&'static str, Vec<UpdateEvent>)> = corpora();
    r.push(("texts", texts()));
    r.push(("single", single()));
    r.push(("big", big()));
    r.into_iter().map(|(name, evs)| entry(name, evs)).collect()
}
