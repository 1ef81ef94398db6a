//! Reference model of an annotation graph: names, labels and edges in plain maps.
use crate::run::*;
use graphannis_core::annostorage::ValueSearch;
use graphannis_core::graph::Graph;
use graphannis_core::graph::update::{GraphUpdate, UpdateEvent};
use graphannis_core::types::{ComponentType, Edge, NodeID};
use std::collections::{BTreeMap, BTreeSet};

pub type Qn = (String, String);
/// type, layer, name
pub type Comp = (String, String, String);
pub type Labels = BTreeMap<Qn, String>;

#[derive(Clone, Default, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Model {
    pub nodes: BTreeMap<String, Labels>,
    pub edges: BTreeMap<Comp, BTreeMap<(String, String), Labels>>,
}

pub fn s(x: &str) -> String {
    x.to_string()
}
pub fn q(ns: &str, n: &str) -> Qn {
    (ns.to_string(), n.to_string())
}
pub fn comp(t: &str, l: &str, n: &str) -> Comp {
    (s(t), s(l), s(n))
}

impl Model {
    /// Apply one event. `valid` tells if the name of a component type exists.
    pub fn apply(&mut self, e: &UpdateEvent, valid: &dyn Fn(&str) -> bool) {
        match e {
            UpdateEvent::AddNode { node_name, node_type } => {
                if !self.nodes.contains_key(node_name) {
                    self.nodes.insert(node_name.clone(), [(q("annis", "node_name"), node_name.clone()), (q("annis", "node_type"), node_type.clone())].into());
                }
            }
            UpdateEvent::DeleteNode { node_name } => {
                if self.nodes.remove(node_name).is_some() {
                    for c in self.edges.values_mut() {
                        c.retain(|(a, b), _| a != node_name && b != node_name);
                    }
                }
            }
            UpdateEvent::AddNodeLabel { node_name, anno_ns, anno_name, anno_value } => {
                if let Some(l) = self.nodes.get_mut(node_name) {
                    l.insert((anno_ns.clone(), anno_name.clone()), anno_value.clone());
                    if anno_ns == "annis" && anno_name == "node_name" && anno_value != node_name {
                        // renamed
                        let l = self.nodes.remove(node_name).unwrap();
                        self.nodes.insert(anno_value.clone(), l);
                        for c in self.edges.values_mut() {
                            let r = |n: &String| if n == node_name { anno_value.clone() } else { n.clone() };
                            *c = std::mem::take(c).into_iter().map(|((a, b), l)| ((r(&a), r(&b)), l)).collect();
                        }
                    }
                }
            }
            UpdateEvent::DeleteNodeLabel { node_name, anno_ns, anno_name } => {
                if let Some(l) = self.nodes.get_mut(node_name) {
                    l.remove(&(anno_ns.clone(), anno_name.clone()));
                }
            }
            UpdateEvent::AddEdge { source_node, target_node, layer, component_type, component_name } => {
                if self.nodes.contains_key(source_node) && self.nodes.contains_key(target_node) && valid(component_type) && source_node != target_node {
                    self.edges.entry(comp(component_type, layer, component_name)).or_default().entry((source_node.clone(), target_node.clone())).or_default();
                }
            }
            UpdateEvent::DeleteEdge { source_node, target_node, layer, component_type, component_name } => {
                if let Some(c) = self.edges.get_mut(&comp(component_type, layer, component_name)) {
                    c.remove(&(source_node.clone(), target_node.clone()));
                }
            }
            UpdateEvent::AddEdgeLabel { source_node, target_node, layer, component_type, component_name, anno_ns, anno_name, anno_value } => {
                if let Some(l) = self.edges.get_mut(&comp(component_type, layer, component_name)).and_then(|c| c.get_mut(&(source_node.clone(), target_node.clone()))) {
                    l.insert((anno_ns.clone(), anno_name.clone()), anno_value.clone());
                }
            }
            UpdateEvent::DeleteEdgeLabel { source_node, target_node, layer, component_type, component_name, anno_ns, anno_name } => {
                if let Some(l) = self.edges.get_mut(&comp(component_type, layer, component_name)).and_then(|c| c.get_mut(&(source_node.clone(), target_node.clone()))) {
                    l.remove(&(anno_ns.clone(), anno_name.clone()));
                }
            }
        }
    }

    /// Without components that have no edges
    pub fn normal(mut self) -> Model {
        self.edges.retain(|_, e| !e.is_empty());
        self
    }
}

pub fn add_node(n: &str, t: &str) -> UpdateEvent {
    UpdateEvent::AddNode { node_name: s(n), node_type: s(t) }
}
pub fn del_node(n: &str) -> UpdateEvent {
    UpdateEvent::DeleteNode { node_name: s(n) }
}
pub fn add_label(n: &str, ns: &str, name: &str, v: &str) -> UpdateEvent {
    UpdateEvent::AddNodeLabel { node_name: s(n), anno_ns: s(ns), anno_name: s(name), anno_value: s(v) }
}
pub fn del_label(n: &str, ns: &str, name: &str) -> UpdateEvent {
    UpdateEvent::DeleteNodeLabel { node_name: s(n), anno_ns: s(ns), anno_name: s(name) }
}
pub fn add_edge(a: &str, b: &str, c: &Comp) -> UpdateEvent {
    UpdateEvent::AddEdge { source_node: s(a), target_node: s(b), layer: c.1.clone(), component_type: c.0.clone(), component_name: c.2.clone() }
}
pub fn del_edge(a: &str, b: &str, c: &Comp) -> UpdateEvent {
    UpdateEvent::DeleteEdge { source_node: s(a), target_node: s(b), layer: c.1.clone(), component_type: c.0.clone(), component_name: c.2.clone() }
}
pub fn add_elabel(a: &str, b: &str, c: &Comp, ns: &str, name: &str, v: &str) -> UpdateEvent {
    UpdateEvent::AddEdgeLabel { source_node: s(a), target_node: s(b), layer: c.1.clone(), component_type: c.0.clone(), component_name: c.2.clone(), anno_ns: s(ns), anno_name: s(name), anno_value: s(v) }
}
pub fn del_elabel(a: &str, b: &str, c: &Comp, ns: &str, name: &str) -> UpdateEvent {
    UpdateEvent::DeleteEdgeLabel { source_node: s(a), target_node: s(b), layer: c.1.clone(), component_type: c.0.clone(), component_name: c.2.clone(), anno_ns: s(ns), anno_name: s(name) }
}

pub fn update(evs: &[UpdateEvent]) -> Result<GraphUpdate, String> {
    let mut u = GraphUpdate::new();
    for e in evs {
        es(u.add_event(e.clone()), "add_event")?;
    }
    Ok(u)
}

/// Short form of an event for messages
pub fn show(e: &UpdateEvent) -> String {
    match e {
        UpdateEvent::AddNode { node_name, .. } => format!("+{node_name}"),
        UpdateEvent::DeleteNode { node_name } => format!("-{node_name}"),
        UpdateEvent::AddNodeLabel { node_name, anno_ns, anno_name, anno_value } => format!("+{node_name}[{anno_ns}:{anno_name}={anno_value}]"),
        UpdateEvent::DeleteNodeLabel { node_name, anno_ns, anno_name } => format!("-{node_name}[{anno_ns}:{anno_name}]"),
        UpdateEvent::AddEdge { source_node, target_node, layer, component_type, component_name } => format!("+{source_node}->{target_node}({component_type}/{layer}/{component_name})"),
        UpdateEvent::DeleteEdge { source_node, target_node, layer, component_type, component_name } => format!("-{source_node}->{target_node}({component_type}/{layer}/{component_name})"),
        UpdateEvent::AddEdgeLabel { source_node, target_node, component_type, layer, component_name, anno_ns, anno_name, anno_value } => {
            format!("+{source_node}->{target_node}({component_type}/{layer}/{component_name})[{anno_ns}:{anno_name}={anno_value}]")
        }
        UpdateEvent::DeleteEdgeLabel { source_node, target_node, component_type, layer, component_name, anno_ns, anno_name } => {
            format!("-{source_node}->{target_node}({component_type}/{layer}/{component_name})[{anno_ns}:{anno_name}]")
        }
    }
}
pub fn show_all(e: &[UpdateEvent]) -> String {
    e.iter().map(show).collect::<Vec<_>>().join(" ")
}

/// Read everything a graph contains through its public interface, checking that the different views agree.
/// Components for which `skip` holds are left out. All components must be loaded.
pub fn dump<CT: ComponentType>(g: &Graph<CT>, skip: &dyn Fn(&str, &str, &str) -> bool) -> Result<Model, String> {
    let annos = g.get_node_annos();
    let mut m = Model::default();
    let mut names: BTreeMap<NodeID, String> = BTreeMap::new();
    for x in annos.exact_anno_search(Some("annis"), "node_name", ValueSearch::Any) {
        let x = es(x, "exact_anno_search")?;
        let key = graphannis_core::graph::NODE_NAME_KEY.clone();
        let n = es(annos.get_value_for_item(&x.node, &key), "get_value_for_item")?.ok_or(format!("node {} found by its name has no name", x.node))?.to_string();
        if names.insert(x.node, n.clone()).is_some() {
            return Err(format!("node {} found twice", x.node));
        }
        let id = es(annos.get_node_id_from_name(&n), "get_node_id_from_name")?;
        if id != Some(x.node) {
            return Err(format!("node {} with name {n:?} has ID {id:?} by its name", x.node));
        }
        let mut l = Labels::new();
        for a in es(annos.get_annotations_for_item(&x.node), "get_annotations_for_item")? {
            if l.insert((a.key.ns.clone(), a.key.name.clone()), a.val.clone()).is_some() {
                return Err(format!("node {n:?} has two annotations {:?}", a.key));
            }
        }
        if m.nodes.insert(n.clone(), l).is_some() {
            return Err(format!("two nodes have the name {n:?}"));
        }
    }
    // search by each key finds the same labels
    let mut by_search: BTreeMap<(Qn, String), BTreeMap<NodeID, usize>> = BTreeMap::new();
    for k in es(annos.annotation_keys(), "annotation_keys")? {
        for v in es(annos.get_all_values(&k, false), "get_all_values")? {
            for x in annos.exact_anno_search(Some(&k.ns), &k.name, ValueSearch::Some(&v)) {
                let x = es(x, "exact_anno_search")?;
                *by_search.entry(((k.ns.to_string(), k.name.to_string()), v.to_string())).or_default().entry(x.node).or_insert(0) += 1;
            }
        }
    }
    let mut exp: BTreeMap<(Qn, String), BTreeMap<NodeID, usize>> = BTreeMap::new();
    for (id, n) in &names {
        for (k, v) in &m.nodes[n] {
            exp.entry((k.clone(), v.clone())).or_default().insert(*id, 1);
        }
    }
    if by_search != exp {
        return Err(format!("labels found by search {by_search:?} differ from the labels of the nodes {exp:?}"));
    }
    for c in g.get_all_components(None, None) {
        let t = c.get_type().to_string();
        if skip(&t, &c.layer, &c.name) {
            continue;
        }
        let gs = g.get_graphstorage(&c).ok_or_else(|| format!("component {c} is not loaded"))?;
        let mut edges: BTreeMap<(String, String), Labels> = BTreeMap::new();
        let mut inv: BTreeSet<(String, String)> = BTreeSet::new();
        let nm = |id: NodeID| names.get(&id).cloned().unwrap_or_else(|| format!("<unknown node {id}>"));
        let mut total = 0;
        let mut sources = BTreeSet::new();
        for src in gs.source_nodes() {
            let src = es(src, "source_nodes")?;
            if !sources.insert(src) {
                return Err(format!("component {c} has source node {} twice", nm(src)));
            }
            for t in gs.get_outgoing_edges(src) {
                let t = es(t, "get_outgoing_edges")?;
                let mut l = Labels::new();
                for a in es(gs.get_anno_storage().get_annotations_for_item(&Edge { source: src, target: t }), "edge annotations")? {
                    l.insert((a.key.ns.clone(), a.key.name.clone()), a.val.clone());
                    total += 1;
                }
                if edges.insert((nm(src), nm(t)), l).is_some() {
                    return Err(format!("component {c} has edge {} -> {} twice", nm(src), nm(t)));
                }
            }
        }
        let n_annos = es(gs.get_anno_storage().number_of_annotations(), "number_of_annotations")?;
        if n_annos != total {
            return Err(format!("component {c} has {n_annos} edge annotations, but its edges have {total}"));
        }
        for id in names.keys() {
            for x in gs.get_ingoing_edges(*id) {
                let x = es(x, "get_ingoing_edges")?;
                inv.insert((nm(x), nm(*id)));
            }
        }
        let fwd: BTreeSet<(String, String)> = edges.keys().cloned().collect();
        if fwd != inv {
            return Err(format!("component {c}: outgoing edges {fwd:?} differ from ingoing edges {inv:?}"));
        }
        if m.edges.insert((t, c.layer.to_string(), c.name.to_string()), edges).is_some() {
            return Err(format!("component {c} listed twice"));
        }
    }
    Ok(m)
}

/// Describe the first difference between two models
pub fn diff(got: &Model, exp: &Model) -> Option<String> {
    if got == exp {
        return None;
    }
    let mut r = vec![];
    for n in got.nodes.keys().chain(exp.nodes.keys()).collect::<BTreeSet<_>>() {
        if got.nodes.get(n) != exp.nodes.get(n) {
            r.push(format!("node {n:?}: expected {:?}, got {:?}", exp.nodes.get(n), got.nodes.get(n)));
        }
    }
    for c in got.edges.keys().chain(exp.edges.keys()).collect::<BTreeSet<_>>() {
        let (a, b) = (got.edges.get(c), exp.edges.get(c));
        if a != b {
            r.push(format!("component {c:?}: expected {b:?}, got {a:?}"));
        }
    }
    r.truncate(4);
    Some(r.join("; "))
}

pub fn same(got: &Model, exp: &Model, what: &str) -> Result<(), String> {
    match diff(got, exp) {
        None => Ok(()),
        Some(d) => Err(format!("{what}: {d}")),
    }
}
