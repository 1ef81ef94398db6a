//! C04: every graph storage implementation answers navigation questions like the plain edge set.
use crate::run::*;
use crate::{must, must_eq};
use graphannis_core::annostorage::{AnnotationStorage, NodeAnnotationStorage};
use graphannis_core::graph::NODE_NAME_KEY;
use graphannis_core::graph::storage::{
    EdgeContainer, GraphStatistic, GraphStorage, WriteableGraphStorage, adjacencylist::AdjacencyListStorage,
    dense_adjacency::DenseAdjacencyListStorage, disk_adjacency::DiskAdjacencyListStorage, disk_path::DiskPathStorage,
    linear::LinearGraphStorage, prepost::PrePostOrderStorage, registry, union::UnionEdgeContainer,
};
use graphannis_core::types::{AnnoKey, Annotation, Edge, NodeID};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::ops::Bound;
use std::path::Path;
use std::sync::Arc;

#[derive(Clone, Default, Debug, Hash, PartialEq, Eq)]
pub struct RefGraph {
    pub nodes: Vec<NodeID>,
    pub edges: BTreeSet<(NodeID, NodeID)>,
    pub annos: BTreeMap<(NodeID, NodeID), BTreeSet<(String, String, String)>>,
}

pub struct RefIndex {
    /// simple path lengths for each pair
    lens: BTreeMap<(NodeID, NodeID), BTreeSet<usize>>,
    pub cyclic: bool,
    pub depth: usize,
}

impl RefGraph {
    pub fn out(&self, n: NodeID) -> BTreeSet<NodeID> {
        self.edges.range((n, 0)..=(n, u64::MAX)).map(|e| e.1).collect()
    }
    pub fn inc(&self, n: NodeID) -> BTreeSet<NodeID> {
        self.edges.iter().filter(|e| e.1 == n).map(|e| e.0).collect()
    }
    pub fn involved(&self, n: NodeID) -> bool {
        self.edges.iter().any(|e| e.0 == n || e.1 == n)
    }
    pub fn sources(&self) -> BTreeSet<NodeID> {
        self.edges.iter().map(|e| e.0).collect()
    }
    pub fn roots(&self) -> BTreeSet<NodeID> {
        let t: BTreeSet<_> = self.edges.iter().map(|e| e.1).collect();
        self.sources().into_iter().filter(|n| !t.contains(n)).collect()
    }
    pub fn max_fan_out(&self) -> usize {
        self.sources().iter().map(|n| self.out(*n).len()).max().unwrap_or(0)
    }
    pub fn max_fan_in(&self) -> usize {
        self.nodes.iter().map(|n| self.inc(*n).len()).max().unwrap_or(0)
    }
    pub fn index(&self) -> RefIndex {
        let mut lens: BTreeMap<(NodeID, NodeID), BTreeSet<usize>> = BTreeMap::new();
        let mut cyclic = false;
        let mut depth = 0;
        let adj: BTreeMap<NodeID, Vec<NodeID>> = self.nodes.iter().map(|n| (*n, self.out(*n).into_iter().collect())).collect();
        fn go(adj: &BTreeMap<NodeID, Vec<NodeID>>, s: NodeID, path: &mut Vec<NodeID>, lens: &mut BTreeMap<(NodeID, NodeID), BTreeSet<usize>>, cyclic: &mut bool, depth: &mut usize) {
            let n = *path.last().unwrap();
            lens.entry((s, n)).or_default().insert(path.len() - 1);
            *depth = (*depth).max(path.len() - 1);
            for t in adj.get(&n).into_iter().flatten() {
                if path.contains(t) {
                    *cyclic = true;
                } else {
                    path.push(*t);
                    go(adj, s, path, lens, cyclic, depth);
                    path.pop();
                }
            }
        }
        for s in &self.nodes {
            go(&adj, *s, &mut vec![*s], &mut lens, &mut cyclic, &mut depth);
        }
        RefIndex { lens, cyclic, depth }
    }
}

impl RefIndex {
    pub fn connected(&self, s: NodeID, t: NodeID, min: usize, max: Bound<usize>) -> bool {
        self.lens.get(&(s, t)).map(|l| l.iter().any(|d| *d >= min && in_max(*d, max))).unwrap_or(s == t && min == 0 && in_max(0, max))
    }
    pub fn dist(&self, s: NodeID, t: NodeID) -> Option<usize> {
        self.lens.get(&(s, t)).and_then(|l| l.iter().next().copied()).or((s == t).then_some(0))
    }
}

fn in_max(d: usize, max: Bound<usize>) -> bool {
    match max {
        Bound::Unbounded => true,
        Bound::Included(m) => d <= m,
        Bound::Excluded(m) => d < m,
    }
}

fn collect(it: Box<dyn Iterator<Item = graphannis_core::errors::Result<NodeID>> + '_>, what: &str) -> Result<BTreeSet<NodeID>, String> {
    let mut r = BTreeSet::new();
    for n in it {
        let n = es(n, what)?;
        if !r.insert(n) {
            return Err(format!("{what} returned node {n} twice"));
        }
    }
    Ok(r)
}

pub fn verify(gs: &dyn GraphStorage, r: &RefGraph, ix: &RefIndex, ranges: &[(usize, Bound<usize>)], probe: &[NodeID]) -> Result<(), String> {
    verify_self(gs, r, ix, ranges, probe, true)
}
/// `selfdist`: whether the distance of a node to itself is defined (the disk path storage does not define it)
pub fn verify_self(gs: &dyn GraphStorage, r: &RefGraph, ix: &RefIndex, ranges: &[(usize, Bound<usize>)], probe: &[NodeID], selfdist: bool) -> Result<(), String> {
    verify_edges(gs.as_edgecontainer(), r, probe)?;
    for &s in probe {
        let inv = r.involved(s);
        for &t in probe {
            if s != t || selfdist {
                must_eq!(es(gs.distance(s, t), "distance")?, ix.dist(s, t), "distance({s},{t})");
            }
        }
        for &(min, max) in ranges {
            let exp: BTreeSet<NodeID> = probe.iter().copied().filter(|t| ix.connected(s, *t, min, max)).collect();
            must_eq!(collect(gs.find_connected(s, min, max), "find_connected")?, exp, "find_connected({s},{min},{max:?})");
            let exp: BTreeSet<NodeID> = probe.iter().copied().filter(|t| ix.connected(*t, s, min, max)).collect();
            must_eq!(collect(gs.find_connected_inverse(s, min, max), "find_connected_inverse")?, exp, "find_connected_inverse({s},{min},{max:?})");
            for &t in probe {
                if s == t && !selfdist {
                    continue;
                }
                must_eq!(es(gs.is_connected(s, t, min, max), "is_connected")?, ix.connected(s, t, min, max), "is_connected({s},{t},{min},{max:?})");
            }
        }
    }
    verify_annos(gs, r, probe)
}

pub fn verify_edges(gs: &dyn EdgeContainer, r: &RefGraph, probe: &[NodeID]) -> Result<(), String> {
    must_eq!(collect(gs.source_nodes(), "source_nodes")?, r.sources(), "source_nodes");
    must_eq!(collect(gs.root_nodes(), "root_nodes")?, r.roots(), "root_nodes");
    for &s in probe {
        let out = r.out(s);
        let inc = r.inc(s);
        must_eq!(collect(gs.get_outgoing_edges(s), "outgoing")?, out, "outgoing edges of {s}");
        must_eq!(collect(gs.get_ingoing_edges(s), "ingoing")?, inc, "ingoing edges of {s}");
        must_eq!(es(gs.has_outgoing_edges(s), "has_outgoing")?, !out.is_empty(), "has_outgoing_edges({s})");
        must_eq!(es(gs.has_ingoing_edges(s), "has_ingoing")?, !inc.is_empty(), "has_ingoing_edges({s})");
    }
    Ok(())
}

pub fn verify_annos(gs: &dyn GraphStorage, r: &RefGraph, probe: &[NodeID]) -> Result<(), String> {
    let st = gs.get_anno_storage();
    let mut total = 0;
    let empty = BTreeSet::new();
    for &s in probe {
        for &t in probe {
            let exp = r.annos.get(&(s, t)).unwrap_or(&empty);
            total += exp.len();
            let got: BTreeSet<(String, String, String)> = es(st.get_annotations_for_item(&Edge { source: s, target: t }), "edge annotations")?
                .into_iter()
                .map(|a| (a.key.ns, a.key.name, a.val))
                .collect();
            must_eq!(got, *exp, "annotations of edge {s}->{t}");
        }
    }
    must_eq!(es(st.number_of_annotations(), "number")?, total, "number of edge annotations");
    Ok(())
}

fn verify_stats(st: Option<&GraphStatistic>, r: &RefGraph, ix: &RefIndex) -> Result<(), String> {
    let st = st.ok_or("statistics missing after calculation")?;
    must_eq!(st.cyclic, ix.cyclic, "statistics: cyclic");
    must_eq!(st.rooted_tree, !ix.cyclic && r.max_fan_in() <= 1, "statistics: rooted_tree");
    must_eq!(st.max_fan_out, r.max_fan_out(), "statistics: max_fan_out");
    if !ix.cyclic && !r.edges.is_empty() {
        must_eq!(st.max_depth, ix.depth.max(1), "statistics: max_depth");
    }
    Ok(())
}

pub fn all_ranges(n: usize) -> Vec<(usize, Bound<usize>)> {
    let mut v = vec![];
    for min in 0..=n {
        for k in 0..=n {
            v.push((min, Bound::Included(k)));
            v.push((min, Bound::Excluded(k + 1)));
        }
        v.push((min, Bound::Unbounded));
    }
    v
}

fn anno(ns: &str, n: &str, v: &str) -> Annotation {
    Annotation { key: AnnoKey { ns: ns.into(), name: n.into() }, val: v.into() }
}

/// deterministic annotations for a mask so that neighbouring edges differ
fn with_annos(g: &mut RefGraph, salt: usize) {
    for (i, e) in g.edges.iter().enumerate() {
        let mut s = BTreeSet::new();
        match (i + salt) % 3 {
            0 => {
                s.insert(("ns".to_string(), "f".to_string(), format!("v{i}")));
            }
            1 => {
                s.insert(("".to_string(), "f".to_string(), "x".to_string()));
                s.insert(("ns".to_string(), "g".to_string(), "".to_string()));
            }
            _ => {}
        }
        if !s.is_empty() {
            g.annos.insert(*e, s);
        }
    }
}

fn fill(gs: &mut dyn WriteableGraphStorage, r: &RefGraph, rev: bool) -> Result<(), String> {
    let mut es_: Vec<_> = r.edges.iter().copied().collect();
    if rev {
        es_.reverse();
    }
    for (s, t) in es_ {
        let e = Edge { source: s, target: t };
        es(gs.add_edge(e.clone()), "add_edge")?;
        if rev {
            // a second insertion changes nothing
            es(gs.add_edge(e.clone()), "add_edge")?;
        }
        if let Some(a) = r.annos.get(&(s, t)) {
            for (ns, n, v) in a {
                if rev {
                    es(gs.add_edge_annotation(e.clone(), anno(ns, n, "old")), "add_edge_annotation")?;
                }
                es(gs.add_edge_annotation(e.clone(), anno(ns, n, v)), "add_edge_annotation")?;
            }
        }
    }
    Ok(())
}

pub fn node_annos(nodes: &[NodeID]) -> graphannis_core::annostorage::inmemory::AnnoStorageImpl<NodeID> {
    let mut a = graphannis_core::annostorage::inmemory::AnnoStorageImpl::<NodeID>::new();
    for n in nodes {
        a.insert(*n, Annotation { key: NODE_NAME_KEY.as_ref().clone(), val: format!("n{n}") }).unwrap();
    }
    a
}

type Maker = fn() -> Result<Box<dyn GraphStorage>, String>;
type Loader = fn(&Path) -> graphannis_core::errors::Result<Box<dyn GraphStorage>>;

fn ld<T: GraphStorage + 'static>(p: &Path) -> graphannis_core::errors::Result<Box<dyn GraphStorage>> {
    Ok(Box::new(T::load_from(p)?))
}

pub fn impls(r: &RefGraph, ix: &RefIndex, disk: bool) -> Vec<(&'static str, Maker, Loader)> {
    let mut v: Vec<(&'static str, Maker, Loader)> = vec![("adj", || Ok(Box::new(AdjacencyListStorage::new())), ld::<AdjacencyListStorage>)];
    let fan = r.max_fan_out();
    if disk {
        v.push(("diskadj", || Ok(Box::new(es(DiskAdjacencyListStorage::new(), "new")?)), ld::<DiskAdjacencyListStorage>));
        if fan == 1 && !ix.cyclic && ix.depth <= 15 {
            v.push(("diskpath", || Ok(Box::new(es(DiskPathStorage::new(), "new")?)), ld::<DiskPathStorage>));
        }
    }
    if fan <= 1 && !r.nodes.is_empty() {
        v.push(("dense", || Ok(Box::new(DenseAdjacencyListStorage::new())), ld::<DenseAdjacencyListStorage>));
    }
    if !ix.cyclic {
        v.push(("prepost64_64", || Ok(Box::new(PrePostOrderStorage::<u64, u64>::new())), ld::<PrePostOrderStorage<u64, u64>>));
        if ix.depth < 255 {
            v.push(("prepost64_8", || Ok(Box::new(PrePostOrderStorage::<u64, u8>::new())), ld::<PrePostOrderStorage<u64, u8>>));
            if r.max_fan_in() <= 1 {
                v.push(("prepost16_8", || Ok(Box::new(PrePostOrderStorage::<u16, u8>::new())), ld::<PrePostOrderStorage<u16, u8>>));
            }
        }
        v.push(("prepost32_32", || Ok(Box::new(PrePostOrderStorage::<u32, u32>::new())), ld::<PrePostOrderStorage<u32, u32>>));
        if fan <= 1 && r.max_fan_in() <= 1 {
            if ix.depth < 255 {
                v.push(("linear8", || Ok(Box::new(LinearGraphStorage::<u8>::new())), ld::<LinearGraphStorage<u8>>));
            }
            v.push(("linear16", || Ok(Box::new(LinearGraphStorage::<u16>::new())), ld::<LinearGraphStorage<u16>>));
            v.push(("linear64", || Ok(Box::new(LinearGraphStorage::<u64>::new())), ld::<LinearGraphStorage<u64>>));
        }
    }
    v
}

fn mask_graph(n: usize, mask: u64, ids: &[NodeID]) -> RefGraph {
    let mut g = RefGraph { nodes: ids[..n].to_vec(), ..Default::default() };
    let mut b = 0;
    for i in 0..n {
        for j in 0..n {
            if i != j {
                if mask >> b & 1 == 1 {
                    g.edges.insert((ids[i], ids[j]));
                }
                b += 1;
            }
        }
    }
    g
}

struct Opt {
    disk: bool,
    persist: bool,
    mutate: bool,
    copyback: bool,
}

fn check_graph(run: &Run, r: &RefGraph, ranges: &[(usize, Bound<usize>)], probe: &[NodeID], rev: bool, o: &Opt) -> Result<(), String> {
    let ix = r.index();
    let na = node_annos(&r.nodes);
    let mut adj = AdjacencyListStorage::new();
    fill(&mut adj, r, rev)?;
    run.trans(r.edges.len() as u64);
    verify(&adj, r, &ix, ranges, probe).map_err(|e| format!("[adjacency list] {e}"))?;
    es(adj.calculate_statistics(), "calculate_statistics")?;
    verify_stats(adj.get_statistics(), r, &ix).map_err(|e| format!("[adjacency list] {e}"))?;
    if o.disk {
        let mut d = es(DiskAdjacencyListStorage::new(), "new")?;
        fill(&mut d, r, rev)?;
        es(d.calculate_statistics(), "calculate_statistics")?;
        verify(&d, r, &ix, ranges, probe).map_err(|e| format!("[disk adjacency list] {e}"))?;
        verify_stats(d.get_statistics(), r, &ix).map_err(|e| format!("[disk adjacency list] {e}"))?;
    }
    for (name, mk, load) in impls(r, &ix, o.disk) {
        let inner = || -> Result<(), String> {
            let mut gs = mk()?;
            // start from a storage which already has other content
            if rev {
                let mut other = AdjacencyListStorage::new();
                let n = r.nodes.len();
                for w in 0..n.min(2) {
                    if w + 1 < n {
                        let e = Edge { source: r.nodes[w], target: r.nodes[w + 1] };
                        es(other.add_edge(e.clone()), "add")?;
                        es(other.add_edge_annotation(e, anno("z", "z", "z")), "add")?;
                    }
                }
                es(other.calculate_statistics(), "stats")?;
                es(gs.copy(&na as &dyn NodeAnnotationStorage, &other), "copy")?;
            }
            es(gs.copy(&na as &dyn NodeAnnotationStorage, &adj), "copy")?;
            run.trans(1);
            let sd = name != "diskpath";
            verify_self(gs.as_ref(), r, &ix, ranges, probe, sd)?;
            verify_stats(gs.get_statistics(), r, &ix)?;
            if o.persist {
                let dir = tmpdir("gs");
                es(gs.save_to(dir.path()), "save_to")?;
                let l = es(load(dir.path()), "load_from")?;
                run.trans(2);
                verify_self(l.as_ref(), r, &ix, ranges, probe, sd).map_err(|e| format!("after save and load: {e}"))?;
                verify_stats(l.get_statistics(), r, &ix).map_err(|e| format!("after save and load: {e}"))?;
                let reg: Arc<dyn GraphStorage> = es(registry::deserialize(&gs.serialization_id(), dir.path()), "registry::deserialize").map_err(|e| format!("after save: {e}"))?;
                verify_edges(reg.as_edgecontainer(), r, probe).map_err(|e| format!("after save and load by name: {e}"))?;
            }
            if o.copyback {
                let mut back = AdjacencyListStorage::new();
                es(back.copy(&na as &dyn NodeAnnotationStorage, gs.as_ref()), "copy back")?;
                run.trans(1);
                verify(&back, r, &ix, ranges, probe).map_err(|e| format!("after copying back: {e}"))?;
            }
            Ok(())
        };
        inner().map_err(|e| format!("[{name}] {e}"))?;
    }
    if o.mutate {
        for disk in [false, true] {
            if disk && !o.disk {
                continue;
            }
            let fresh = || -> Result<Box<dyn WriteableGraphStorage>, String> {
                let mut g: Box<dyn WriteableGraphStorage> =
                    if disk { Box::new(es(DiskAdjacencyListStorage::new(), "new")?) } else { Box::new(AdjacencyListStorage::new()) };
                fill(g.as_mut(), r, rev)?;
                Ok(g)
            };
            let small = [(1usize, Bound::Unbounded), (0, Bound::Included(1)), (2, Bound::Included(2))];
            let run_one = |g: &mut dyn WriteableGraphStorage, r2: &RefGraph, what: String| -> Result<(), String> {
                run.trans(1);
                let ix2 = r2.index();
                verify(g, r2, &ix2, &small, probe).map_err(|e| format!("[disk={disk}] after {what}: {e}"))?;
                es(g.calculate_statistics(), "stats")?;
                verify_stats(g.get_statistics(), r2, &ix2).map_err(|e| format!("[disk={disk}] after {what}: {e}"))
            };
            let mut pairs: Vec<(NodeID, NodeID)> = r.edges.iter().copied().collect();
            if let (Some(a), Some(b)) = (r.nodes.first(), r.nodes.last()) {
                pairs.push((*a, *b)); // possibly missing edge
            }
            for (s, t) in pairs {
                let mut g = fresh()?;
                let e = Edge { source: s, target: t };
                es(g.delete_edge(&e), "delete_edge")?;
                let mut r2 = r.clone();
                r2.edges.remove(&(s, t));
                r2.annos.remove(&(s, t));
                run_one(g.as_mut(), &r2, format!("deleting edge {s}->{t}"))?;
                // and insert it again: no annotation comes back
                if s != t {
                    es(g.add_edge(e.clone()), "add_edge")?;
                    r2.edges.insert((s, t));
                    run_one(g.as_mut(), &r2, format!("deleting and re-adding edge {s}->{t}"))?;
                }
                if let Some((ns, n, _)) = r.annos.get(&(s, t)).and_then(|a| a.iter().next()) {
                    let mut g = fresh()?;
                    es(g.delete_edge_annotation(&e, &AnnoKey { ns: ns.clone(), name: n.clone() }), "delete_edge_annotation")?;
                    let mut r2 = r.clone();
                    let set = r2.annos.get_mut(&(s, t)).unwrap();
                    set.retain(|a| !(a.0 == *ns && a.1 == *n));
                    run_one(g.as_mut(), &r2, format!("deleting annotation {ns}::{n} of {s}->{t}"))?;
                }
            }
            for n in &r.nodes {
                let mut g = fresh()?;
                es(g.delete_node(*n), "delete_node")?;
                let mut r2 = r.clone();
                r2.edges.retain(|e| e.0 != *n && e.1 != *n);
                r2.annos.retain(|e, _| e.0 != *n && e.1 != *n);
                run_one(g.as_mut(), &r2, format!("deleting node {n}"))?;
            }
            let mut g = fresh()?;
            es(g.clear(), "clear")?;
            let r2 = RefGraph { nodes: r.nodes.clone(), ..Default::default() };
            run_one(g.as_mut(), &r2, "clear".into())?;
        }
    }
    Ok(())
}

fn union_case(n: usize, m1: u64, m2: u64, ids: &[NodeID], probe: &[NodeID]) -> Result<(), String> {
    let a = mask_graph(n, m1, ids);
    let b = mask_graph(n, m2, ids);
    let mut ga = AdjacencyListStorage::new();
    fill(&mut ga, &a, false)?;
    let mut gb = AdjacencyListStorage::new();
    fill(&mut gb, &b, true)?;
    let u = UnionEdgeContainer::new(vec![&ga as &dyn EdgeContainer, &gb as &dyn EdgeContainer]);
    let mut r = a.clone();
    r.edges.extend(b.edges.iter().copied());
    verify_edges(&u, &r, probe).map_err(|e| format!("[union] {e}"))
}

/// Larger regular shapes around the size limits of the specialised encodings.
fn shapes(thorough: bool) -> Vec<(String, RefGraph)> {
    let mut v = vec![];
    let chain = |len: usize| -> RefGraph {
        let nodes: Vec<u64> = (0..=len as u64).collect();
        let edges = nodes.windows(2).map(|w| (w[0], w[1])).collect();
        RefGraph { nodes, edges, annos: Default::default() }
    };
    let mut lens = vec![14, 15, 16, 17, 127, 128, 253, 254, 255, 256, 257, 300];
    if thorough {
        lens.extend([511, 512, 600]);
    }
    for l in lens {
        let g = chain(l);
        v.push((format!("chain{l}"), g.clone()));
        // reversed node IDs
        let mut h = g.clone();
        h.edges = g.edges.iter().map(|(a, b)| (*b, *a)).collect();
        v.push((format!("rchain{l}"), h));
        // one side branch at the end: a tree which is not linear
        let mut h = g.clone();
        let n = l as u64 + 1;
        h.nodes.push(n);
        h.edges.insert((l as u64 - 1, n));
        v.push((format!("chain{l}+branch"), h));
        // two parents at the end: almost a tree
        let mut h = g.clone();
        h.nodes.push(n);
        h.edges.insert((l as u64 - 1, n));
        h.edges.insert((n, l as u64));
        v.push((format!("chain{l}+diamond"), h));
        // second root
        let mut h = g.clone();
        h.nodes.push(n);
        h.edges.insert((n, l as u64 / 2));
        v.push((format!("chain{l}+root"), h));
    }
    for w in [1usize, 2, 254, 255, 256, 300] {
        let nodes: Vec<u64> = (0..=w as u64).collect();
        let edges = (1..=w as u64).map(|i| (0, i)).collect();
        v.push((format!("star{w}"), RefGraph { nodes: nodes.clone(), edges, annos: Default::default() }));
        let edges = (1..=w as u64).map(|i| (i, 0)).collect();
        v.push((format!("instar{w}"), RefGraph { nodes, edges, annos: Default::default() }));
    }
    v
}

fn shape_index(r: &RefGraph) -> (bool, usize, bool) {
    // acyclic by construction; depth by longest path
    let mut depth: BTreeMap<NodeID, usize> = BTreeMap::new();
    fn d(r: &BTreeMap<NodeID, Vec<NodeID>>, n: NodeID, memo: &mut BTreeMap<NodeID, usize>) -> usize {
        if let Some(x) = memo.get(&n) {
            return *x;
        }
        let x = r.get(&n).map(|o| o.iter().map(|t| 1 + d(r, *t, memo)).max().unwrap_or(0)).unwrap_or(0);
        memo.insert(n, x);
        x
    }
    let mut adj: BTreeMap<NodeID, Vec<NodeID>> = Default::default();
    for (s, t) in &r.edges {
        adj.entry(*s).or_default().push(*t);
    }
    let m = r.nodes.iter().map(|n| d(&adj, *n, &mut depth)).max().unwrap_or(0);
    (false, m, r.max_fan_in() <= 1)
}

fn check_shape(run: &Run, r: &RefGraph) -> Result<(), String> {
    let (cyclic, depth, _) = shape_index(r);
    // lengths per pair by dynamic programming over DAG, restricted to a few probe sources
    let mut adj: BTreeMap<NodeID, Vec<NodeID>> = Default::default();
    for (s, t) in &r.edges {
        adj.entry(*s).or_default().push(*t);
    }
    let n = r.nodes.len();
    let cand = [0usize, 1, 2, n / 2, n.saturating_sub(3), n.saturating_sub(2), n - 1];
    let probes: BTreeSet<NodeID> = cand.iter().filter(|i| **i < n).map(|i| r.nodes[*i]).collect();
    let lens_from = |s: NodeID| -> BTreeMap<NodeID, BTreeSet<usize>> {
        let mut cur: BTreeSet<NodeID> = [s].into();
        let mut res: BTreeMap<NodeID, BTreeSet<usize>> = Default::default();
        let mut d = 0;
        while !cur.is_empty() {
            let mut next = BTreeSet::new();
            for c in &cur {
                res.entry(*c).or_default().insert(d);
                next.extend(adj.get(c).into_iter().flatten().copied());
            }
            cur = next;
            d += 1;
        }
        res
    };
    let all: BTreeMap<NodeID, BTreeMap<NodeID, BTreeSet<usize>>> = r.nodes.iter().map(|n| (*n, lens_from(*n))).collect();
    let mut adjs = AdjacencyListStorage::new();
    fill(&mut adjs, r, false)?;
    es(adjs.calculate_statistics(), "stats")?;
    let na = node_annos(&r.nodes);
    let ix = RefIndex { lens: Default::default(), cyclic, depth };
    verify_stats(adjs.get_statistics(), r, &ix)?;
    let d = depth;
    let ranges: Vec<(usize, Bound<usize>)> = vec![
        (0, Bound::Unbounded),
        (1, Bound::Unbounded),
        (1, Bound::Included(1)),
        (1, Bound::Included(2)),
        (2, Bound::Excluded(4)),
        (d.saturating_sub(1), Bound::Included(d)),
        (d, Bound::Unbounded),
        (1, Bound::Included(254)),
        (255, Bound::Included(256)),
    ];
    for (name, mk, load) in impls(r, &ix, true) {
        let inner = || -> Result<(), String> {
            let mut gs = mk()?;
            es(gs.copy(&na as &dyn NodeAnnotationStorage, &adjs), "copy")?;
            let dir = tmpdir("gs");
            es(gs.save_to(dir.path()), "save_to")?;
            let l = es(load(dir.path()), "load")?;
            let l2: Arc<dyn GraphStorage> = es(registry::deserialize(&gs.serialization_id(), dir.path()), "registry::deserialize")?;
            run.trans(3);
            for gs in [gs.as_ref(), l.as_ref(), l2.as_ref()] {
                verify_edges(gs.as_edgecontainer(), r, &r.nodes)?;
                for &s in &probes {
                    for &(min, max) in &ranges {
                        let f = |x: &BTreeSet<usize>| x.iter().any(|d| *d >= min && in_max(*d, max));
                        let exp: BTreeSet<NodeID> = all[&s].iter().filter(|(_, l)| f(l)).map(|(t, _)| *t).collect();
                        must_eq!(collect(gs.find_connected(s, min, max), "find_connected")?, exp, "find_connected({s},{min},{max:?})");
                        let exp: BTreeSet<NodeID> = r.nodes.iter().copied().filter(|t| all[t].get(&s).map(f).unwrap_or(false)).collect();
                        must_eq!(collect(gs.find_connected_inverse(s, min, max), "find_connected_inverse")?, exp, "find_connected_inverse({s},{min},{max:?})");
                        for &t in &probes {
                            if s == t && name == "diskpath" {
                                continue;
                            }
                            must_eq!(es(gs.is_connected(s, t, min, max), "is_connected")?, all[&s].get(&t).map(f).unwrap_or(false), "is_connected({s},{t},{min},{max:?})");
                        }
                    }
                    for &t in &probes {
                        if s == t && name == "diskpath" {
                            continue;
                        }
                        must_eq!(es(gs.distance(s, t), "distance")?, all[&s].get(&t).and_then(|l| l.iter().next().copied()), "distance({s},{t})");
                    }
                }
            }
            Ok(())
        };
        inner().map_err(|e| format!("[{name}] {e}"))?;
        must!(true, "");
    }
    Ok(())
}

pub fn check(run: &Run) {
    *run.rule.lock().unwrap() = "every directed graph without self-loops over n labelled nodes (n and node IDs per family), each built in two insertion orders and copied into every graph storage implementation the library may select for it; every answer of every implementation for every node pair and every distance range up to n compared with enumeration of simple paths".into();
    let idsets: Vec<(&str, Vec<NodeID>)> = vec![("dense", vec![0, 1, 2, 3, 4]), ("gaps", vec![300, 7, 0, 70000, 255])];
    let unknown: NodeID = 999;
    // families: n<=3 with all options, both id sets, both orders
    let mut fam: Vec<(usize, usize, bool, u64)> = vec![];
    for n in 0..=3usize {
        for idset in 0..2 {
            for rev in [false, true] {
                for m in 0..1u64 << (n * n.saturating_sub(1)) {
                    fam.push((n, idset, rev, m));
                }
            }
        }
    }
    run.par_n(8, 4, fam.into_iter(), |(n, is, rev, m)| {
        let ids = &idsets[is].1;
        let mut g = mask_graph(n, m, ids);
        with_annos(&mut g, m as usize);
        run.state(&g);
        let mut probe = g.nodes.clone();
        probe.push(unknown);
        run.sample(|| json!({"n": n, "ids": idsets[is].0, "edges": format!("{:?}", g.edges)}));
        run.case(|| format!("small:{n}:{is}:{rev}:{m}"), || check_graph(run, &g, &all_ranges(n + 1), &probe, rev, &Opt { disk: true, persist: true, mutate: true, copyback: true }));
    });
    // n = 4: all 4096 graphs; ranges up to 4
    let full4 = run.thorough;
    run.par_n(8, 8, (0..1u64 << 12).flat_map(|m| [(m, false), (m, true)]), |(m, rev)| {
        if rev && !full4 && m % 2 == 1 {
            // second insertion order only for the even half in the quick tier
            return;
        }
        let mut g = mask_graph(4, m, &idsets[if rev { 1 } else { 0 }].1);
        with_annos(&mut g, m as usize);
        run.state(&g);
        let mut probe = g.nodes.clone();
        probe.push(unknown);
        run.case(|| format!("four:{rev}:{m}"), || check_graph(run, &g, &all_ranges(4), &probe, rev, &Opt { disk: full4 || m % 8 == 0 || g.max_fan_out() <= 1, persist: full4 || g.max_fan_out() <= 1, mutate: full4, copyback: true }));
    });
    // n = 5: all DAG-ish and general graphs in memory (thorough)
    if run.thorough {
        run.par_n(8, 64, 0..1u64 << 20, |m| {
            let g = mask_graph(5, m, &idsets[0].1);
            run.state(&g);
            let ranges = [(1, Bound::Unbounded), (0, Bound::Included(2)), (2, Bound::Included(3)), (1, Bound::Excluded(3)), (3, Bound::Unbounded)];
            let probe = g.nodes.clone();
            run.case(|| format!("five:{m}"), || check_graph(run, &g, &ranges, &probe, false, &Opt { disk: false, persist: false, mutate: false, copyback: false }));
        });
    }
    // union of two components
    run.par_n(8, 16, (0..64u64).flat_map(|a| (0..64u64).map(move |b| (a, b))), |(a, b)| {
        run.case(|| format!("union:{a}:{b}"), || union_case(3, a, b, &idsets[0].1, &[0, 1, 2, unknown]));
    });
    run.par_n(8, 1, shapes(run.thorough).into_iter(), |(name, g)| {
        run.state(&g);
        run.case(|| format!("shape:{name}"), || check_shape(run, &g));
    });
    run.note("bound", format!("all graphs with <= 4 nodes (disk-backed storages and persistence: {}), {} shapes at encoding limits{}", if full4 { "all" } else { "all with <=3 nodes, all with 4 nodes and fan-out <=1, every 8th other" }, shapes(run.thorough).len(), if run.thorough { ", all graphs with 5 nodes in memory" } else { "" }));
}
