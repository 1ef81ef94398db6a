//! C06: annotation storages compared with a map from (item, key) to value.
use crate::run::*;
use crate::{must, must_eq};
use graphannis_core::annostorage::{AnnotationStorage, Match, NodeAnnotationStorage, ValueSearch, inmemory, ondisk};
use graphannis_core::types::{AnnoKey, Annotation, Edge, NodeID};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::sync::Arc;

pub type Qn = (String, String); // ns, name
pub fn akey(q: &Qn) -> AnnoKey {
    AnnoKey { ns: q.0.clone().into(), name: q.1.clone().into() }
}
pub trait Item: Ord + Clone + Debug + Send + Sync + 'static {
    fn node(&self) -> NodeID;
}
impl Item for NodeID {
    fn node(&self) -> NodeID {
        *self
    }
}
impl Item for Edge {
    fn node(&self) -> NodeID {
        self.source
    }
}
pub type Model<T> = BTreeMap<(T, Qn), String>;

#[derive(Clone)]
pub struct Probe<T> {
    pub items: Vec<T>,
    pub keys: Vec<Qn>,
    pub values: Vec<String>,
    pub patterns: Vec<(String, Option<regex::Regex>)>,
}

fn multiset(ms: impl IntoIterator<Item = (NodeID, Qn)>) -> BTreeMap<(NodeID, Qn), usize> {
    let mut r = BTreeMap::new();
    for m in ms {
        *r.entry(m).or_insert(0) += 1;
    }
    r
}
fn m2t(m: &Match) -> (NodeID, Qn) {
    (m.node, (m.anno_key.ns.to_string(), m.anno_key.name.to_string()))
}

pub fn verify<T: Item>(st: &dyn AnnotationStorage<T>, m: &Model<T>, p: &Probe<T>, max_ever: Option<&T>) -> Result<(), String> {
    must_eq!(es(st.number_of_annotations(), "number_of_annotations")?, m.len(), "number_of_annotations");
    must_eq!(es(st.is_empty(), "is_empty")?, m.is_empty(), "is_empty");
    let exp_keys: BTreeSet<Qn> = m.keys().map(|k| k.1.clone()).collect();
    let got: Vec<Qn> = es(st.annotation_keys(), "annotation_keys")?.into_iter().map(|k| (k.ns.to_string(), k.name.to_string())).collect();
    must_eq!(got.len(), exp_keys.len(), "number of annotation_keys {got:?} vs. {exp_keys:?}");
    must_eq!(got.into_iter().collect::<BTreeSet<_>>(), exp_keys, "annotation_keys");
    let real_max = m.keys().map(|k| &k.0).max();
    let got_max = es(st.get_largest_item(), "get_largest_item")?;
    if got_max.as_ref() < real_max || got_max.as_ref() > max_ever {
        return Err(format!("get_largest_item: got {got_max:?} but the largest item is {real_max:?} and {max_ever:?} was the largest ever added"));
    }
    let names: BTreeSet<&String> = p.keys.iter().map(|k| &k.1).collect();
    let nss: BTreeSet<&String> = p.keys.iter().map(|k| &k.0).collect();
    for it in &p.items {
        let exp: BTreeMap<Qn, String> = m.iter().filter(|e| &e.0.0 == it).map(|e| (e.0.1.clone(), e.1.clone())).collect();
        let got: Vec<(Qn, String)> = es(st.get_annotations_for_item(it), "get_annotations_for_item")?.into_iter().map(|a| ((a.key.ns.to_string(), a.key.name.to_string()), a.val.to_string())).collect();
        must_eq!(got.len(), exp.len(), "number of annotations for item {it:?}: {got:?}");
        must_eq!(got.into_iter().collect::<BTreeMap<_, _>>(), exp, "get_annotations_for_item({it:?})");
        for k in &p.keys {
            must_eq!(es(st.get_value_for_item(it, &akey(k)), "get_value_for_item")?.map(|v| v.to_string()), exp.get(k).cloned(), "get_value_for_item({it:?},{k:?})");
            must_eq!(es(st.has_value_for_item(it, &akey(k)), "has_value_for_item")?, exp.contains_key(k), "has_value_for_item({it:?},{k:?})");
        }
        let mut filters: Vec<(Option<&str>, Option<&str>)> = vec![(None, None)];
        for n in &names {
            filters.push((None, Some(n)));
            for ns in &nss {
                filters.push((Some(ns), Some(n)));
            }
        }
        for (ns, n) in filters {
            let e: BTreeSet<Qn> = exp.keys().filter(|k| ns.is_none_or(|x| x == k.0) && n.is_none_or(|x| x == k.1)).cloned().collect();
            let got: Vec<Qn> = es(st.get_all_keys_for_item(it, ns, n), "get_all_keys_for_item")?.into_iter().map(|k| (k.ns.to_string(), k.name.to_string())).collect();
            must_eq!(got.len(), e.len(), "number of keys for item {it:?} {ns:?} {n:?}: {got:?}");
            must_eq!(got.into_iter().collect::<BTreeSet<_>>(), e, "get_all_keys_for_item({it:?},{ns:?},{n:?})");
            // lists of items, in both orders
            for rev in [false, true] {
                let mut list = p.items.clone();
                if rev {
                    list.reverse();
                }
                let got = es(st.get_keys_for_iterator(ns, n, Box::new(list.clone().into_iter().map(Ok))), "get_keys_for_iterator")?;
                let order: Vec<NodeID> = {
                    let mut o: Vec<NodeID> = got.iter().map(|x| x.node).collect();
                    o.dedup();
                    o
                };
                let e: Vec<(NodeID, Qn)> = list.iter().flat_map(|i| m.keys().filter(move |k| &k.0 == i && ns.is_none_or(|x| x == k.1.0) && n.is_none_or(|x| x == k.1.1)).map(|k| (k.0.node(), k.1.clone()))).collect();
                let mut eo: Vec<NodeID> = e.iter().map(|x| x.0).collect();
                eo.dedup();
                must_eq!(order, eo, "order of items in get_keys_for_iterator({ns:?},{n:?},{list:?})");
                must_eq!(multiset(got.iter().map(m2t)), multiset(e), "get_keys_for_iterator({ns:?},{n:?},{list:?})");
            }
        }
    }
    let search = |ns: Option<&str>, n: &str, f: &dyn Fn(&str) -> bool| -> BTreeMap<(NodeID, Qn), usize> {
        multiset(m.iter().filter(|(k, v)| ns.is_none_or(|x| x == k.1.0) && n == k.1.1 && f(v)).map(|(k, _)| (k.0.node(), k.1.clone())))
    };
    let col = |it: Box<dyn Iterator<Item = graphannis_core::errors::Result<Match>> + '_>, what: &str| -> Result<BTreeMap<(NodeID, Qn), usize>, String> {
        let mut v = vec![];
        for x in it.take(m.len() + 10) {
            v.push(m2t(&es(x, what)?));
        }
        Ok(multiset(v))
    };
    for n in &names {
        let exp: BTreeSet<Qn> = exp_keys.iter().filter(|k| &&k.1 == n).cloned().collect();
        let got: Vec<Qn> = es(st.get_qnames(n), "get_qnames")?.into_iter().map(|k| (k.ns.to_string(), k.name.to_string())).collect();
        must_eq!(got.len(), exp.len(), "number of get_qnames({n})");
        must_eq!(got.into_iter().collect::<BTreeSet<_>>(), exp, "get_qnames({n})");
        let mut ns_opts: Vec<Option<&str>> = vec![None];
        ns_opts.extend(nss.iter().map(|x| Some(x.as_str())));
        for ns in ns_opts {
            let any = search(ns, n, &|_| true);
            must_eq!(es(st.number_of_annotations_by_name(ns, n), "number_of_annotations_by_name")?, any.values().sum::<usize>(), "number_of_annotations_by_name({ns:?},{n})");
            must_eq!(col(st.exact_anno_search(ns, n, ValueSearch::Any), "exact_anno_search")?, any, "exact_anno_search({ns:?},{n},Any)");
            for v in &p.values {
                must_eq!(col(st.exact_anno_search(ns, n, ValueSearch::Some(v)), "exact_anno_search")?, search(ns, n, &|x| x == v), "exact_anno_search({ns:?},{n},Some({v:?}))");
                must_eq!(col(st.exact_anno_search(ns, n, ValueSearch::NotSome(v)), "exact_anno_search")?, search(ns, n, &|x| x != v), "exact_anno_search({ns:?},{n},NotSome({v:?}))");
                es(st.guess_max_count(ns, n, v, v), "guess_max_count")?;
            }
            for (pat, re) in &p.patterns {
                let pos = match re {
                    Some(re) => search(ns, n, &|x| re.is_match(x)),
                    None => Default::default(),
                };
                must_eq!(col(st.regex_anno_search(ns, n, pat, false), "regex_anno_search")?, pos, "regex_anno_search({ns:?},{n},{pat:?})");
                let neg = match re {
                    Some(re) => search(ns, n, &|x| !re.is_match(x)),
                    None => any.clone(),
                };
                must_eq!(col(st.regex_anno_search(ns, n, pat, true), "regex_anno_search")?, neg, "regex_anno_search({ns:?},{n},{pat:?},negated)");
                es(st.guess_max_count_regex(ns, n, pat), "guess_max_count_regex")?;
            }
            es(st.guess_most_frequent_value(ns, n), "guess_most_frequent_value")?;
        }
    }
    for k in &p.keys {
        let mut freq: BTreeMap<String, usize> = BTreeMap::new();
        for (mk, v) in m {
            if &mk.1 == k {
                *freq.entry(v.clone()).or_insert(0) += 1;
            }
        }
        for sorted in [false, true] {
            let got: Vec<String> = es(st.get_all_values(&akey(k), sorted), "get_all_values")?.into_iter().map(|x| x.to_string()).collect();
            must_eq!(got.len(), freq.len(), "number of get_all_values({k:?},{sorted}): {got:?}");
            must_eq!(got.iter().collect::<BTreeSet<_>>(), freq.keys().collect::<BTreeSet<_>>(), "get_all_values({k:?},{sorted})");
            if sorted {
                let f: Vec<usize> = got.iter().map(|g| freq[g]).collect();
                must!(f.windows(2).all(|w| w[0] >= w[1]), "get_all_values({k:?},true) is not ordered by descending frequency: {got:?} have {f:?}");
            }
        }
    }
    Ok(())
}

fn verify_names(st: &dyn NodeAnnotationStorage, m: &Model<NodeID>, names: &[String]) -> Result<(), String> {
    for n in names {
        let c: BTreeSet<NodeID> = m.iter().filter(|(k, v)| k.1 == ("annis".into(), "node_name".into()) && *v == n).map(|(k, _)| k.0).collect();
        let got = es(st.get_node_id_from_name(n), "get_node_id_from_name")?;
        match got {
            None => must!(c.is_empty(), "get_node_id_from_name({n:?}) found nothing but {c:?} have that name"),
            Some(id) => must!(c.contains(&id), "get_node_id_from_name({n:?}) returned {id}, but {c:?} have that name"),
        }
        must_eq!(es(st.has_node_name(n), "has_node_name")?, !c.is_empty(), "has_node_name({n:?})");
    }
    Ok(())
}

#[derive(Clone, Debug)]
pub enum Op {
    Ins(usize, usize, usize),
    Rem(usize, usize),
    RemItem(usize),
    Stats,
    ReloadNew,
    LoadFrom,
    /// save to a directory, but continue with the unsaved storage
    Save,
    Clear,
}

pub trait Store<T: Send + Sync>: AnnotationStorage<T> + Sized {
    fn fresh() -> Result<Self, String>;
    fn reopen(dir: &std::path::Path) -> Result<Self, String>;
    fn as_node(&self) -> Option<&dyn NodeAnnotationStorage>;
}
macro_rules! store {
    ($t:ty, $disk:expr, $new:expr, $node:expr) => {
        impl Store<<$t as ItemOf>::I> for $t {
            fn fresh() -> Result<Self, String> {
                $new
            }
            fn reopen(dir: &std::path::Path) -> Result<Self, String> {
                let f: fn(&std::path::Path) -> Result<Self, String> = $disk;
                f(dir)
            }
            fn as_node(&self) -> Option<&dyn NodeAnnotationStorage> {
                let f: fn(&Self) -> Option<&dyn NodeAnnotationStorage> = $node;
                f(self)
            }
        }
    };
}
pub trait ItemOf {
    type I;
}
impl ItemOf for inmemory::AnnoStorageImpl<NodeID> {
    type I = NodeID;
}
impl ItemOf for inmemory::AnnoStorageImpl<Edge> {
    type I = Edge;
}
impl ItemOf for ondisk::AnnoStorageImpl<NodeID> {
    type I = NodeID;
}
impl ItemOf for ondisk::AnnoStorageImpl<Edge> {
    type I = Edge;
}
store!(inmemory::AnnoStorageImpl<NodeID>, |d| { let mut s = inmemory::AnnoStorageImpl::new(); es(s.load_annotations_from(d), "load_annotations_from")?; Ok(s) }, Ok(inmemory::AnnoStorageImpl::new()), |s| Some(s));
store!(inmemory::AnnoStorageImpl<Edge>, |d| { let mut s = inmemory::AnnoStorageImpl::new(); es(s.load_annotations_from(d), "load_annotations_from")?; Ok(s) }, Ok(inmemory::AnnoStorageImpl::new()), |_| None);
store!(ondisk::AnnoStorageImpl<NodeID>, |d| es(ondisk::AnnoStorageImpl::new(Some(d.join(ondisk::SUBFOLDER_NAME))), "open"), es(ondisk::AnnoStorageImpl::new(None), "new"), |s| Some(s));
store!(ondisk::AnnoStorageImpl<Edge>, |d| es(ondisk::AnnoStorageImpl::new(Some(d.join(ondisk::SUBFOLDER_NAME))), "open"), es(ondisk::AnnoStorageImpl::new(None), "new"), |_| None);

fn history<T: Item, S: Store<T>>(run: &Run, ops: &[Op], p: &Probe<T>, names: &[String]) -> Result<(), String> {
    let dir = tmpdir("an");
    let mut s = S::fresh()?;
    let mut m: Model<T> = Model::new();
    let mut max: Option<T> = None;
    for (i, o) in ops.iter().enumerate() {
        match o {
            Op::Ins(it, k, v) => {
                let it = p.items[*it].clone();
                es(s.insert(it.clone(), Annotation { key: akey(&p.keys[*k]), val: p.values[*v].clone().into() }), "insert")?;
                if max.as_ref() < Some(&it) {
                    max = Some(it.clone());
                }
                m.insert((it, p.keys[*k].clone()), p.values[*v].clone());
            }
            Op::Rem(it, k) => {
                let e = m.remove(&(p.items[*it].clone(), p.keys[*k].clone()));
                let got = es(s.remove_annotation_for_item(&p.items[*it], &akey(&p.keys[*k])), "remove_annotation_for_item")?.map(|x| x.to_string());
                must_eq!(got, e, "result of operation {i} {o:?}");
            }
            Op::RemItem(it) => {
                let n = m.len();
                m.retain(|k, _| k.0 != p.items[*it]);
                must_eq!(es(s.remove_item(&p.items[*it]), "remove_item")?, n != m.len(), "result of operation {i} {o:?}");
            }
            Op::Stats => es(s.calculate_statistics(), "calculate_statistics")?,
            Op::ReloadNew => {
                let d = dir.path().join(format!("r{i}"));
                std::fs::create_dir_all(&d).unwrap();
                es(s.save_annotations_to(&d), "save_annotations_to")?;
                s = S::reopen(&d)?;
            }
            Op::LoadFrom => {
                // load the saved content into a storage that already has other content
                let d = dir.path().join(format!("l{i}"));
                std::fs::create_dir_all(&d).unwrap();
                es(s.save_annotations_to(&d), "save_annotations_to")?;
                // (a new one, or one that was opened from the same place or from somewhere else)
                let mut t = S::fresh()?;
                if i % 3 != 0 {
                    let d2 = if i % 3 == 1 { d.clone() } else { dir.path().join(format!("m{i}")) };
                    std::fs::create_dir_all(&d2).unwrap();
                    es(s.save_annotations_to(&d2), "save_annotations_to")?;
                    t = S::reopen(&d2)?;
                }
                es(t.insert(p.items[0].clone(), Annotation { key: akey(&p.keys[p.keys.len() - 1]), val: "other".into() }), "insert")?;
                es(t.load_annotations_from(&d), "load_annotations_from")?;
                s = t;
            }
            Op::Save => {
                let d = dir.path().join(format!("s{i}"));
                std::fs::create_dir_all(&d).unwrap();
                es(s.save_annotations_to(&d), "save_annotations_to")?;
            }
            Op::Clear => {
                es(s.clear(), "clear")?;
                m.clear();
            }
        }
    }
    run.trans(ops.len() as u64);
    run.state(&format!("{m:?}"));
    verify(&s, &m, p, max.as_ref())?;
    if let Some(n) = s.as_node() {
        let nm: Model<NodeID> = m.iter().map(|((i, q), v)| ((i.node(), q.clone()), v.clone())).collect();
        verify_names(n, &nm, names)?;
    }
    Ok(())
}

fn seqs(n: usize, depth: usize) -> impl Iterator<Item = Vec<usize>> + Send {
    (1..=depth).flat_map(move |d| {
        let total = (n as u64).pow(d as u32);
        (0..total).map(move |mut x| {
            let mut v = vec![0; d];
            for i in (0..d).rev() {
                v[i] = (x % n as u64) as usize;
                x /= n as u64;
            }
            v
        })
    })
}

fn all_ops(items: usize, keys: usize, values: usize, extra: &[Op]) -> Vec<Op> {
    let mut r = vec![];
    for i in 0..items {
        for k in 0..keys {
            for v in 0..values {
                r.push(Op::Ins(i, k, v));
            }
            r.push(Op::Rem(i, k));
        }
        r.push(Op::RemItem(i));
    }
    r.extend_from_slice(extra);
    r
}

pub fn patterns(ps: &[&str]) -> Vec<(String, Option<regex::Regex>)> {
    // the meaning of a pattern is that of a regular expression which has to match the whole value
    ps.iter().map(|p| (p.to_string(), regex::Regex::new(p).ok().and_then(|_| regex::Regex::new(&format!("^(?:{p})$")).ok()))).collect()
}

fn explore<T: Item, S: Store<T>>(run: &Run, name: &str, items: &[T], eviction: Option<usize>, depth: usize, small: bool) {
    let q = |a: &str, b: &str| (a.to_string(), b.to_string());
    let (keys, values, pats) = if small {
        (vec![q("annis", "node_name"), q("", "b")], vec!["a".to_string(), "ab".to_string()], patterns(&["a", "a.*"]))
    } else {
        (vec![q("annis", "node_name"), q("n", "node_name"), q("", "b")], vec!["".to_string(), "a".to_string(), "ä".to_string()], patterns(&["", "a|ä", "ä", "(", "."]))
    };
    let extra: Vec<Op> = if small { vec![Op::Stats, Op::ReloadNew, Op::LoadFrom, Op::Clear] } else { vec![Op::Stats, Op::ReloadNew, Op::LoadFrom, Op::Save, Op::Clear] };
    let ops = all_ops(items.len(), keys.len(), values.len(), &extra);
    let p = Probe { items: items.to_vec(), keys, values, patterns: pats };
    let names = vec!["".to_string(), "a".to_string(), "ab".to_string(), "ä".to_string()];
    run.par_n(8, 64, seqs(ops.len(), depth), |s| {
        run.case(
            || format!("hist/{name}/{}/{eviction:?}/{}", if small { "small" } else { "full" }, s.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")),
            || {
                graphannis_core::mc::set_eviction_limit(eviction);
                let ops: Vec<Op> = s.iter().map(|x| ops[*x].clone()).collect();
                let r = history::<T, S>(run, &ops, &p, &names);
                graphannis_core::mc::set_eviction_limit(None);
                r.map_err(|e| format!("{e}\n  history: {ops:?} items {:?} keys {:?} values {:?}", p.items, p.keys, p.values))
            },
        );
    });
}

/// All sets of up to three values of a larger alphabet, on their own items, against many search patterns
fn battery<S: Store<NodeID>>(run: &Run, name: &str, eviction: Option<usize>) {
    let vals = ["", "a", "ab", "abc", "b", "A", "ä", "ö", "äö", "a\0b", "a\0", "\0", "\u{1d11e}", "\u{10FFFF}", "\u{10FFFF}x", "a.b", "a\nb", "a b", "0", "10", "9"];
    let pats = [
        "", "a", "a.*", ".*", "a|b", "[äö]", "ä|ö", "(ä|ö).*", "(?i)a", "(?i)ä", "a+", "[^a].*", "(", ")", "a\\.b", "\\p{L}+", "ab?", "(ab|ac).*", "\\bab", "^a$", "a$|b", "^ab?$", "(?s).*", "a\0b", "\\x00", "\u{10FFFF}.*", "[0-9]+", "ab{2,}", "(abc|ab)", "a{0}", "[a&&b]", "\u{1d11e}|\u{1d11f}", "(?x) a # comment",
    ];
    let n = vals.len();
    let mut sets: Vec<Vec<usize>> = vec![];
    for i in 0..n {
        for j in i..n {
            sets.push(vec![i, j]);
            if run.thorough {
                for k in j..n {
                    sets.push(vec![i, j, k]);
                }
            }
        }
    }
    let q = |a: &str, b: &str| (a.to_string(), b.to_string());
    let keys = vec![q("annis", "node_name"), q("annis", "node"), q("", "node_name"), q("annis:", "node_name"), q("\u{10FFFF}", "node_name")];
    let pr = Probe { items: vec![0u64, 1, 255, 256, u64::MAX - 1], keys: keys.clone(), values: vals.iter().map(|s| s.to_string()).collect(), patterns: patterns(&pats) };
    run.par_n(8, 4, sets.into_iter(), |set| {
        run.case(
            || format!("values/{name}/{eviction:?}/{}", set.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")),
            || {
                graphannis_core::mc::set_eviction_limit(eviction);
                let mut s = S::fresh()?;
                let mut m: Model<NodeID> = Model::new();
                let items = [1u64, 256, 0];
                for (i, v) in set.iter().enumerate() {
                    for (kn, k) in keys.iter().enumerate().take(2 + i) {
                        let v = pr.values[(*v + kn / 2) % n].clone();
                        es(s.insert(items[i], Annotation { key: akey(k), val: v.clone().into() }), "insert")?;
                        m.insert((items[i], k.clone()), v);
                    }
                }
                run.state(&format!("{m:?}"));
                run.trans(m.len() as u64);
                let names: Vec<String> = pr.values.clone();
                for stats in [false, true] {
                    if stats {
                        es(s.calculate_statistics(), "calculate_statistics")?;
                    }
                    verify(&s, &m, &pr, Some(&256)).map_err(|e| format!("{e} (content {m:?})"))?;
                    verify_names(s.as_node().unwrap(), &m, &names)?;
                }
                let dir = tmpdir("av");
                es(s.save_annotations_to(dir.path()), "save")?;
                let s = S::reopen(dir.path())?;
                verify(&s, &m, &pr, Some(&256)).map_err(|e| format!("after reopening: {e} (content {m:?})"))?;
                graphannis_core::mc::set_eviction_limit(None);
                Ok(())
            },
        );
    });
}

/// Many items, so that statistics have several buckets and the disk tables several blocks
fn large<S: Store<NodeID>>(run: &Run, name: &str) {
    let sizes: Vec<u64> = run.q(vec![3, 251, 252, 600], vec![3, 249, 250, 251, 252, 253, 600, 2499, 2500, 2501, 12000]);
    let mut work = vec![];
    for n in sizes {
        for distinct in [1u64, 2, 7, 251, 1 << 40] {
            for ev in [None, Some(100usize)] {
                work.push((n, distinct, ev));
            }
        }
    }
    run.par_n(8, 1, work.into_iter(), |(n, distinct, ev)| {
        run.case(
            || format!("large/{name}/{n}/{distinct}/{ev:?}"),
            || {
                graphannis_core::mc::set_eviction_limit(ev);
                let dir = tmpdir("alg");
                let k = ("n".to_string(), "k".to_string());
                let mut s = S::fresh()?;
                let mut m: Model<NodeID> = Model::new();
                for i in 0..n {
                    let v = format!("v{}", i % distinct);
                    es(s.insert(i, Annotation { key: akey(&k), val: v.clone().into() }), "insert")?;
                    m.insert((i, k.clone()), v);
                }
                run.trans(n);
                run.state(&(n, distinct, ev));
                let pr = Probe { items: vec![0, n / 2, n - 1, n], keys: vec![k.clone()], values: vec!["v0".into(), "v1".into(), format!("v{}", n - 1)], patterns: patterns(&["v.*", "v1.*", ".*"]) };
                for step in 0..4 {
                    match step {
                        1 => es(s.calculate_statistics(), "calculate_statistics")?,
                        2 => {
                            for i in (0..n).step_by(3) {
                                es(s.remove_item(&i), "remove_item")?;
                                m.remove(&(i, k.clone()));
                            }
                            for i in (1..n).step_by(3) {
                                es(s.insert(i, Annotation { key: akey(&k), val: "v1".into() }), "insert")?;
                                m.insert((i, k.clone()), "v1".into());
                            }
                        }
                        3 => {
                            es(s.calculate_statistics(), "calculate_statistics")?;
                            es(s.save_annotations_to(dir.path()), "save")?;
                            s = S::reopen(dir.path())?;
                        }
                        _ => (),
                    }
                    verify(&s, &m, &pr, Some(&(n - 1))).map_err(|e| format!("step {step}: {}", e.chars().take(400).collect::<String>()))?;
                }
                graphannis_core::mc::set_eviction_limit(None);
                Ok(())
            },
        );
    });
}

pub fn check(run: &Run) {
    *run.rule.lock().unwrap() = "every operation sequence (insert, remove annotation, remove item, statistics, save+reopen, save+load into used storage, clear) over 2 items up to the depth, on the real in-memory and on-disk storages for node and edge annotations; after each one every lookup and search is compared with a map; plus every set of values of a larger alphabet against every search pattern; distinct = distinct map content".into();
    run.assume("the meaning of a regular expression is that of the regex crate applied to the whole value");
    let e = |a, b| Edge { source: a, target: b };
    let nodes = [3u64, 256];
    let edges = [e(1, 9), e(2, 1)];
    let ds = run.q(3, 4);
    let df = run.q(2, 3);
    explore::<NodeID, inmemory::AnnoStorageImpl<NodeID>>(run, "memnode", &nodes, None, run.q(4, 5), true);
    explore::<Edge, inmemory::AnnoStorageImpl<Edge>>(run, "memedge", &edges, None, ds, true);
    explore::<NodeID, inmemory::AnnoStorageImpl<NodeID>>(run, "memnode", &nodes, None, 3, false);
    for ev in [None, Some(2), Some(1)] {
        explore::<NodeID, ondisk::AnnoStorageImpl<NodeID>>(run, "disknode", &nodes, ev, run.q(if ev.is_none() { 4 } else { 3 }, 4), true);
        explore::<Edge, ondisk::AnnoStorageImpl<Edge>>(run, "diskedge", &edges, ev, ds, true);
        explore::<NodeID, ondisk::AnnoStorageImpl<NodeID>>(run, "disknode", &nodes, ev, df, false);
        battery::<ondisk::AnnoStorageImpl<NodeID>>(run, "disknode", ev);
    }
    battery::<inmemory::AnnoStorageImpl<NodeID>>(run, "memnode", None);
    large::<inmemory::AnnoStorageImpl<NodeID>>(run, "memnode");
    large::<ondisk::AnnoStorageImpl<NodeID>>(run, "disknode");
    run.note("bounds", json!({"items": 2, "small": {"keys": 2, "values": 2, "operations": 18, "depth": run.q(4, 5)}, "full": {"keys": 3, "values": 3, "operations": 31, "depth": 3}}));
    let _: Option<Arc<AnnoKey>> = None;
}
