//! C10: the result of a query does not depend on how it is evaluated. C11: paging.
use crate::aql::*;
use crate::aqlcheck::{compare, complex, ops, specs};
use crate::cs::*;
use crate::model::*;
use crate::run::*;
use crate::{must, must_eq};
use graphannis::CorpusStorage;
use graphannis::corpusstorage::ResultOrder;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

fn two(a: Spec, op: Op, b: Spec) -> Conj {
    Conj { nodes: vec![n(a), n(b)], lits: vec![Lit::Bin(0, op, 1, false)] }
}

pub struct Expected {
    pub text: String,
    pub alts: Vec<Conj>,
    pub must: BTreeSet<String>,
    pub may: BTreeSet<String>,
    pub bound: bool,
}

fn expect(c: &Corpus, alts: Vec<Conj>) -> Expected {
    let (must, may) = c.query(&alts);
    let id = |s: BTreeSet<Vec<M>>| s.iter().map(|t| match_id(t)).collect();
    Expected { text: query_text(&alts), bound: alts.iter().all(|a| a.bound()), alts, must: id(must), may: id(may) }
}

/// documents of the nodes
pub fn documents(m: &Model) -> BTreeMap<String, BTreeSet<String>> {
    let mut r: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for n in m.nodes.keys() {
        let mut seen = BTreeSet::new();
        let mut todo = vec![n.clone()];
        while let Some(x) = todo.pop() {
            for (c, es) in &m.edges {
                if c.0 == "PartOf" {
                    for (a, b) in es.keys() {
                        if *a == x && seen.insert(b.clone()) {
                            todo.push(b.clone());
                        }
                    }
                }
            }
        }
        r.insert(n.clone(), seen.into_iter().filter(|d| m.nodes[d].contains_key(&q("annis", "doc"))).collect());
    }
    r
}

fn node_of(id: &str) -> &str {
    let first = id.split(' ').next().unwrap();
    first.rsplit("::").next().unwrap()
}

fn queries(full: bool, big: bool) -> Vec<Vec<Conj>> {
    let sp = specs(false);
    let l = if full { sp.clone() } else { vec![sp[0], sp[1], sp[4], sp[6]] };
    let mut r: Vec<Vec<Conj>> = specs(true).into_iter().map(|s| vec![Conj { nodes: vec![n(s)], lits: vec![] }]).collect();
    for a in &l {
        for o in ops(full) {
            for b in &l {
                r.push(vec![two(*a, o, *b)]);
            }
        }
    }
    if big {
        let o = [Op::Prec(None, ALL), Op::Over, Op::Near(None, Rg(1, Some(3))), Op::Incl];
        for o1 in o {
            for o2 in o {
                r.push(vec![Conj { nodes: vec![n(sp[1]), n(sp[1]), n(sp[6])], lits: vec![Lit::Bin(0, o1, 1, false), Lit::Bin(1, o2, 2, false)] }]);
                r.push(vec![Conj { nodes: vec![n(sp[1]), n(sp[1]), n(sp[4])], lits: vec![Lit::Bin(0, o1, 2, false), Lit::Bin(1, o2, 2, false), Lit::Bin(0, Op::Eq, 1, false)] }]);
            }
        }
        return r;
    }
    // the three node queries with a sparse set of operators, everything else completely
    let step = if full { 1 } else { 9 };
    r.extend(complex(full).into_iter().enumerate().filter(|(i, q)| i % step == 0 || q.len() > 1 || q[0].nodes.iter().any(|x| x.optional)).map(|(_, q)| q).take(if full { 10000 } else { 450 }));
    r
}

fn check_one(cs: &CorpusStorage, name: &str, e: &Expected, docs: &BTreeMap<String, BTreeSet<String>>, all: bool) -> Result<usize, String> {
    let names = [name];
    if !e.bound {
        must!(cs.count(query(&names, &e.text)).is_err(), "count accepts a query with nodes that are not bound");
        must!(cs.count_extra(query(&names, &e.text)).is_err(), "count_extra accepts a query with nodes that are not bound");
        must!(find(cs, &names, &e.text, 0, None, ResultOrder::NotSorted).is_err(), "find accepts a query with nodes that are not bound");
        return Ok(0);
    }
    let raw = find(cs, &names, &e.text, 0, None, ResultOrder::NotSorted)?;
    let set: BTreeSet<String> = raw.iter().cloned().collect();
    must!(set.len() == raw.len(), "find returns {} matches, but only {} are different", raw.len(), set.len());
    let missing: Vec<_> = e.must.difference(&set).take(5).collect();
    let wrong: Vec<_> = set.difference(&e.may).take(5).collect();
    must!(missing.is_empty() && wrong.is_empty(), "missing {missing:?}, wrong {wrong:?} (found {}, expected {})", set.len(), e.must.len());
    if all {
        let mut sorted = find(cs, &names, &e.text, 0, None, ResultOrder::Normal)?;
        sorted.sort();
        must!(sorted.iter().eq(set.iter()), "sorted and unsorted result are different sets");
    }
    let count = es(cs.count(query(&names, &e.text)), "count")?;
    must_eq!(count, raw.len() as u64, "count");
    if all {
        let x = es(cs.count_extra(query(&names, &e.text)), "count_extra")?;
        must_eq!(x.match_count, raw.len() as u64, "match count of count_extra");
        let d: BTreeSet<&String> = raw.iter().filter(|m| !m.is_empty()).flat_map(|m| docs[node_of(m)].iter()).collect();
        must_eq!(x.document_count, d.len() as u64, "document count of count_extra");
    }
    Ok(raw.len())
}

fn permutations(k: usize) -> Vec<Vec<usize>> {
    let mut r = vec![vec![]];
    for i in 0..k {
        let mut n = vec![];
        for p in r {
            for pos in 0..=p.len() {
                let mut v: Vec<usize> = p.clone();
                v.insert(pos, i);
                n.push(v);
            }
        }
        r = n;
    }
    r
}

/// all orders of writing the same conditions: the nodes in any order, conditions anywhere
fn variants(c: &Conj) -> Vec<(String, Conj)> {
    let mut r = vec![];
    for p in permutations(c.nodes.len()) {
        // p[i]: the old number of the new i-th node
        let new = |old: usize| p.iter().position(|x| *x == old).unwrap();
        let d = Conj {
            nodes: p.iter().map(|i| c.nodes[*i].clone()).collect(),
            lits: c
                .lits
                .iter()
                .map(|l| match l {
                    Lit::Bin(a, o, b, neg) => Lit::Bin(new(*a), *o, new(*b), *neg),
                    Lit::Arity(a, r) => Lit::Arity(new(*a), *r),
                })
                .collect(),
        };
        let parts = d.parts(0);
        let k = d.nodes.len();
        for o in permutations(parts.len()) {
            // nodes stay in order
            let pos: Vec<usize> = o.iter().copied().filter(|x| *x < k).collect();
            if pos.windows(2).all(|w| w[0] < w[1]) {
                r.push((o.iter().map(|i| parts[*i].clone()).collect::<Vec<_>>().join(" & "), d.clone()));
            }
        }
        if let Some(t) = d.chain() {
            r.push((t, d.clone()));
        }
    }
    r
}

fn variant_queries(full: bool) -> Vec<Conj> {
    let sp = specs(false);
    let mut r = vec![];
    let o = [Op::Prec(None, ONE), Op::Over, Op::Incl, Op::Dom("", ALL, None), Op::Ptr("dep", ONE, None), Op::Ident, Op::Near(None, ALL), Op::PartOf(ALL), Op::Prec(None, ALL), Op::IdentCov, Op::Left, Op::Right];
    let k = if full { o.len() } else { 6 };
    let triples = [(sp[0], sp[0], sp[0]), (sp[1], sp[0], sp[4]), (sp[6], sp[1], sp[6]), (sp[4], sp[4], sp[0])];
    for (x, y, z) in &triples[..if full { 4 } else { 2 }] {
        for o1 in &o[..k] {
            for o2 in &o[..k] {
                let nodes = vec![n(*x), n(*y), n(*z)];
                r.push(Conj { nodes: nodes.clone(), lits: vec![Lit::Bin(0, *o1, 1, false), Lit::Bin(1, *o2, 2, false)] });
                r.push(Conj { nodes: nodes.clone(), lits: vec![Lit::Bin(0, *o1, 1, false), Lit::Bin(0, *o2, 2, false)] });
                if full {
                    r.push(Conj { nodes: nodes.clone(), lits: vec![Lit::Bin(0, *o1, 1, false), Lit::Bin(1, *o2, 2, false), Lit::Bin(0, Op::Eq, 2, false)] });
                    r.push(Conj { nodes: nodes.clone(), lits: vec![Lit::Bin(0, *o1, 1, false), Lit::Bin(1, *o2, 2, false), Lit::Bin(2, Op::Over, 0, true)] });
                }
            }
        }
        for o1 in &o {
            for neg in [false, true] {
                r.push(Conj { nodes: vec![n(*x), n(*y)], lits: vec![Lit::Bin(0, *o1, 1, false), Lit::Bin(1, Op::Near(None, ONE), 0, neg), Lit::Arity(0, Rg(1, Some(3)))] });
            }
            r.push(Conj { nodes: vec![n(*x), opt(*y)], lits: vec![Lit::Bin(0, *o1, 1, true), Lit::Arity(0, Rg(0, Some(2)))] });
            r.push(Conj { nodes: vec![n(*x), n(*y), opt(*z)], lits: vec![Lit::Bin(0, *o1, 1, false), Lit::Bin(0, Op::Prec(None, ONE), 2, true)] });
        }
    }
    r
}

pub fn check_eval(run: &Run) {
    *run.rule.lock().unwrap() = "every query under every combination of storage variant, parallel joins and state of the corpus (fresh, unloaded, re-optimized, reopened), compared with the definition; and every order of writing its conditions; distinct = distinct configuration and query".into();
    run.pool_threads.store(2, std::sync::atomic::Ordering::Relaxed);
    let full = !run.q(true, false);
    // expected results of each corpus
    let ens: Vec<_> = entries()
        .into_iter()
        .map(|en| {
            let docs = documents(&en.c.m);
            let qs: Vec<Expected> = queries(full && en.name != "big", en.name == "big").into_iter().map(|q| expect(&en.c, q)).collect();
            (en, docs, qs)
        })
        .collect();
    let total: usize = ens.iter().map(|e| e.2.len()).sum();
    let mut work = vec![];
    for e in ens.iter().rev() {
        for disk in [false, true] {
            for par in [false, true] {
                work.push((e, disk, par));
            }
        }
    }
    run.par_n(8, 1, work.into_iter(), |((en, docs, qs), disk, par)| {
        let dir = tmpdir("c10");
        let id = |st: &str| format!("{}/{}/{}/{st}", en.name, if disk { "disk" } else { "mem" }, if par { "par" } else { "seq" });
        let pass = |cs: &CorpusStorage, st: &str| {
            for e in qs {
                run.case(
                    || format!("{}/{}", id(st), e.text),
                    || {
                        let n = check_one(cs, "corpus", e, docs, full || st == "fresh").map_err(|x| format!("query {:?} ({}): {x}\n  corpus: {}", e.text, id(st), if en.name == "big" { "big".into() } else { show_all(&en.evs) }))?;
                        run.outcome(&(en.name, e.text.as_str(), n));
                        run.state(&(disk, par, st, en.name, e.text.as_str()));
                        run.trans(5);
                        Ok(())
                    },
                );
                if run.time_up() {
                    break;
                }
            }
        };
        let r = guarded(|| {
            let mut cs = open(dir.path(), par)?;
            create(&cs, "corpus", &en.evs, disk)?;
            pass(&cs, "fresh");
            if full || !par {
                es(cs.unload("corpus"), "unload")?;
                pass(&cs, "unloaded");
            }
            es(cs.reoptimize_implementation("corpus", !disk), "reoptimize")?;
            pass(&cs, "switched");
            if !full && par {
                return Ok(());
            }
            es(cs.reoptimize_implementation("corpus", disk), "reoptimize")?;
            es(cs.preload("corpus"), "preload")?;
            pass(&cs, "switched back");
            drop(cs);
            cs = open(dir.path(), par)?;
            pass(&cs, "reopened");
            Ok(())
        });
        if let Err(e) = r {
            run.case(|| id("setup"), || Err(e));
        }
    });
    // the same conditions in another order, executed directly
    let vq = variant_queries(full);
    let mut variants_total = 0;
    for (name, evs) in crate::aqlcheck::corpora() {
        for stats in [false, true] {
            if stats && !full {
                continue;
            }
            let b = match crate::aqlcheck::build(name, evs.clone(), stats) {
                Ok(b) => b,
                Err(e) => {
                    run.case(|| format!("build/{name}"), || Err(e));
                    continue;
                }
            };
            run.par_n(8, 4, vq.iter(), |q| {
                for (text, c) in variants(q) {
                    run.case(
                        || format!("order/{}/{text}", b.name),
                        || {
                            let n = compare(&b, &text, std::slice::from_ref(&c)).map_err(|e| format!("query {text:?} on graph {:?}: {e}\n  graph: {}", b.name, show_all(&b.evs)))?;
                            run.outcome(&(b.name.as_str(), text.as_str(), n));
                            run.state(text.as_str());
                            run.trans(1);
                            Ok(())
                        },
                    );
                }
            });
        }
    }
    for q in &vq {
        variants_total += variants(q).len();
    }
    run.note("bounds", json!({"corpora": entries().len(), "queries over all corpora": total, "configurations": if full { 20 } else { 14 }, "queries in every written order": vq.len(), "written orders": variants_total}));
}

/// every choice of the first pivots for arrays just above the size from which they are used
fn check_sort(run: &Run) {
    let levels = run.q(2, 3);
    let sizes: Vec<usize> = (0..run.q(25, 27)).collect();
    let mut work: Vec<(usize, usize, Vec<u32>)> = vec![];
    for n in sizes {
        let m = n as u32;
        let f: Vec<Vec<u32>> = vec![
            (0..m).collect(),
            (0..m).rev().collect(),
            (0..m).map(|i| (i + m / 2) % m.max(1)).collect(),
            (0..m).map(|i| (i * 7 + 3) % m.max(1)).collect(),
            (0..m).map(|i| i / 2).collect(),
            (0..m).map(|i| i % 2).collect(),
            (0..m).map(|i| (i % 3) * 5 + i / 7).collect(),
            (0..m).map(|i| if i < m / 2 { i } else { m - i }).collect(),
            (0..m).map(|i| if i == m / 2 { 0 } else { 1 + i }).collect(),
            (0..m).map(|i| if i == 0 { m } else { m - i % 5 }).collect(),
        ];
        for (k, a) in f.into_iter().enumerate() {
            work.push((n, k, a));
        }
    }
    run.par_n(8, 1, work.into_iter(), |(n, k, a)| {
        for first in 0..=n + 1 {
            run.case(
                || format!("sort/{n}/{k}/{first}"),
                || {
                    let mut sorted = a.clone();
                    sorted.sort();
                    let mut script: Vec<usize> = vec![];
                    loop {
                        let taken = std::rc::Rc::new(std::cell::RefCell::new(Vec::<usize>::new()));
                        let (t2, s2) = (taken.clone(), script.clone());
                        let mut calls = 0usize;
                        graphannis::mc::set_pivots(Some(Box::new(move |r| {
                            let len = r.end - r.start;
                            let i = calls;
                            calls += 1;
                            let c = if i < levels {
                                t2.borrow_mut().push(len);
                                s2.get(i).copied().unwrap_or(0)
                            } else {
                                (i * 5 + len / 2) % len
                            };
                            [r.start + c; 3]
                        })));
                        let mut v = a.clone();
                        let res = graphannis::mc::sort_first_n_items(&mut v, first);
                        graphannis::mc::set_pivots(None);
                        es(res, "sort_first_n_items")?;
                        let f = first.min(n);
                        must!(v[..f] == sorted[..f], "first {first} of {a:?} are {:?} for the pivot choices {script:?}", &v[..f]);
                        let mut all = v.clone();
                        all.sort();
                        must!(all == sorted, "sorting {a:?} changed the items: {v:?}");
                        run.trans(1);
                        run.state(&(n, k, first, &script));
                        // next script
                        let lens = taken.borrow().clone();
                        script.resize(lens.len(), 0);
                        loop {
                            match script.pop() {
                                None => return Ok(()),
                                Some(x) if x + 1 < lens[script.len()] => {
                                    script.push(x + 1);
                                    break;
                                }
                                _ => {}
                            }
                        }
                    }
                },
            );
        }
    });
}

fn paging_queries() -> Vec<Vec<Conj>> {
    let sp = specs(true);
    let one = |s: Spec| Conj { nodes: vec![n(s)], lits: vec![] };
    let cat = Spec::Anno(None, "cat", None);
    let mut r = vec![vec![one(Spec::Node)], vec![one(Spec::Tok)], vec![one(sp[4])], vec![one(sp[5])], vec![one(sp[6])], vec![one(cat)], vec![one(Spec::Anno(Some("annis"), "doc", None))], vec![one(Spec::Anno(None, "none", None))]];
    r.push(vec![one(sp[3])]);
    r.push(vec![one(sp[1]), two(sp[1], Op::Prec(None, ONE), sp[0])]);
    r.push(vec![two(cat, Op::Incl, sp[1]), one(cat)]);
    r.push(vec![two(sp[1], Op::Prec(None, ALL), sp[4])]);
    r.push(vec![two(sp[0], Op::PartOf(ALL), Spec::Anno(None, "doc", None))]);
    r.push(vec![two(sp[0], Op::Incl, sp[0])]);
    r.push(vec![two(cat, Op::Over, sp[0])]);
    r.push(vec![Conj { nodes: vec![opt(sp[1]), n(cat)], lits: vec![Lit::Bin(1, Op::Dom("", ONE, None), 0, true)] }]);
    r.push(vec![two(sp[1], Op::Near(None, ONE), sp[1]), Conj { nodes: vec![n(cat), opt(sp[1])], lits: vec![Lit::Bin(0, Op::Dom("", ONE, None), 1, true)] }]);
    r
}

fn values(len: usize, full: bool) -> Vec<usize> {
    let mut r: Vec<usize> = if len <= 3 || full { (0..=len + 1).collect() } else { vec![0, 1, 2, len / 2, len - 1, len, len + 1] };
    r.extend([1 << 40, usize::MAX]);
    if full {
        r.extend([100, usize::MAX - 1]);
    }
    r
}

const ORDERS: [ResultOrder; 4] = [ResultOrder::Normal, ResultOrder::Inverted, ResultOrder::NotSorted, ResultOrder::Randomized];

/// all pages of one query. `lists`: the expected complete result of each corpus in the order of the names, if known
fn check_pages(run: &Run, cs: &CorpusStorage, names: &[&str], text: &str, sets: &BTreeMap<&str, Vec<String>>, full: bool) -> Result<usize, String> {
    let count = es(cs.count(query(names, text)), "count")?;
    let mut sorted: Vec<&str> = names.to_vec();
    sorted.sort();
    let mut expected: Vec<String> = vec![];
    for c in &sorted {
        expected.extend(sets[c].iter().cloned());
    }
    must_eq!(count, expected.len() as u64, "count");
    let tag = |l: &[String]| l.iter().take(8).cloned().collect::<Vec<_>>().join("; ");
    for order in ORDERS {
        let all = find(cs, names, text, 0, None, order)?;
        let mut exp = expected.clone();
        match order {
            ResultOrder::Normal => must!(all == exp, "{order:?} order is {}, expected {}", tag(&all), tag(&exp)),
            ResultOrder::Inverted => {
                exp.reverse();
                must!(all == exp, "{order:?} order is {}, expected {}", tag(&all), tag(&exp));
            }
            ResultOrder::NotSorted => {
                // the corpora one after the other
                let mut p = 0;
                for c in &sorted {
                    let k = sets[c].len();
                    must!(all.len() >= p + k, "{order:?} has {} results, expected {}", all.len(), exp.len());
                    let (a, b): (BTreeSet<&String>, BTreeSet<&String>) = (all[p..p + k].iter().collect(), sets[c].iter().collect());
                    must!(a == b, "{order:?} results of corpus {c} are {}", tag(&all[p..p + k]));
                    p += k;
                }
                must_eq!(all.len(), p, "number of results in order {order:?}");
            }
            ResultOrder::Randomized => {
                let mut a = all.clone();
                a.sort();
                exp.sort();
                must!(a == exp, "{order:?} order is no permutation: {}", tag(&all));
            }
        }
        for offset in values(expected.len(), full) {
            for limit in std::iter::once(None).chain(values(expected.len(), full).into_iter().map(Some)) {
                let page = find(cs, names, text, offset, limit, order)?;
                run.trans(1);
                let end = limit.map(|l| offset.saturating_add(l)).unwrap_or(usize::MAX).min(all.len());
                let slice: &[String] = if offset < end { &all[offset..end] } else { &[] };
                if order == ResultOrder::Randomized {
                    must!(page.len() == slice.len(), "random page {offset}/{limit:?} has {} results, expected {}", page.len(), slice.len());
                    let p: BTreeSet<&String> = page.iter().collect();
                    must!(names.len() > 1 || p.len() == page.len(), "random page {offset}/{limit:?} has a result twice");
                    must!(p.iter().all(|x| expected.contains(x)), "random page {offset}/{limit:?} has wrong results");
                } else {
                    must!(page == slice, "page {offset}/{limit:?} in order {order:?} is {}, expected {}", tag(&page), tag(slice));
                }
            }
        }
    }
    Ok(expected.len())
}

pub fn check_paging(run: &Run) {
    *run.rule.lock().unwrap() = "every page (offset, limit) of every query in every order over one and several corpora compared with the slice of the complete list, which is compared with the text order of the definition; every choice of the first pivots for the partial sorting of arrays around the threshold; distinct = distinct pages and pivot scripts".into();
    let full = !run.q(true, false);
    check_sort(run);
    let mut ens = entries();
    ens.push(entry("big texts", big_texts()));
    let qs = paging_queries();
    // results in the order of the definition
    let lists: BTreeMap<&str, Vec<Vec<String>>> = ens
        .iter()
        .map(|en| {
            let pos = TextPos::new(&en.c).expect("text order");
            let l = qs
                .iter()
                .map(|alts| {
                    let (must, may) = en.c.query(alts);
                    assert!(must == may, "open result of a paging query");
                    let mut v: Vec<Vec<M>> = must.into_iter().collect();
                    v.sort_by(|a, b| pos.cmp(a, b));
                    v.iter().map(|t| match_id(t)).collect()
                })
                .collect();
            (en.name, l)
        })
        .collect();
    let names: Vec<&str> = ens.iter().map(|e| e.name).collect();
    let mut groups: Vec<Vec<&str>> = names.iter().map(|x| vec![*x]).collect();
    let small: Vec<&str> = vec!["layers", "rich", "single", "texts"];
    for a in &small {
        for b in &small {
            if full || a == b || *b == "texts" || *a == "texts" {
                groups.push(vec![a, b]);
            }
        }
    }
    groups.push(vec!["texts", "layers", "rich"]);
    groups.push(vec!["rich", "segtok", "layers", "single"]);
    let mut work = vec![];
    for disk in [false, true] {
        for g in &groups {
            if !disk || full || g.len() == 1 {
                work.push((disk, g));
            }
        }
    }
    work.reverse();
    run.par_n(8, 1, work.into_iter(), |(disk, g)| {
        let dir = tmpdir("c11");
        let r = guarded(|| {
            let cs = open(dir.path(), false)?;
            for en in &ens {
                if g.contains(&en.name) {
                    create(&cs, en.name, &en.evs, disk)?;
                }
            }
            if disk {
                for n in g.iter() {
                    es(cs.reoptimize_implementation(n, true), "reoptimize")?;
                }
            }
            for (i, alts) in qs.iter().enumerate() {
                if !full && g.len() > 1 && i % 2 == 1 {
                    continue;
                }
                let text = query_text(alts);
                let sets: BTreeMap<&str, Vec<String>> = g.iter().map(|n| (*n, lists[n][i].clone())).collect();
                run.case(
                    || format!("{}/{}/{text}", g.join("+"), if disk { "disk" } else { "mem" }),
                    || {
                        let n = check_pages(run, &cs, g, &text, &sets, full && g.len() == 1).map_err(|e| format!("query {text:?} on {}: {e}", g.join("+")))?;
                        run.outcome(&(g, &text, n));
                        run.state(&(g, &text, disk));
                        Ok(())
                    },
                );
            }
            Ok(())
        });
        if let Err(e) = r {
            run.case(|| format!("setup/{}", g.join("+")), || Err(e));
        }
    });
    run.note("bounds", json!({"corpora": ens.len(), "corpus selections": groups.len(), "queries": qs.len(), "orders": 4, "pivot choices per sort": run.q(2, 3)}));
}
