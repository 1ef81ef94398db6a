//! C13: frequency tables are the exact histogram of the matches.
use crate::aql::*;
use crate::aqlcheck::{complex, ops, specs};
use crate::cs::*;
use crate::model::*;
use crate::run::*;
use crate::{must, must_eq};
use graphannis::CorpusStorage;
use graphannis::corpusstorage::{FrequencyDefEntry, QueryLanguage, SearchQuery};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

type Def = (Option<&'static str>, &'static str, String);
type Table = BTreeMap<Vec<String>, usize>;

fn var(alts: &[Conj], name: &str) -> Vec<Option<(usize, Option<usize>)>> {
    // per alternative: position in the query and in the match
    let mut off = 0;
    let mut r = vec![];
    for a in alts {
        let mut found = None;
        let mut out = 0;
        for (i, x) in a.nodes.iter().enumerate() {
            let v = x.var.map(|x| x.to_string()).unwrap_or((off + i + 1).to_string());
            if v == name {
                found = Some((off + i, (!x.optional).then_some(out)));
            }
            if !x.optional {
                out += 1;
            }
        }
        off += a.nodes.len();
        r.push(found);
    }
    r
}

/// names of all query nodes
fn vars(alts: &[Conj]) -> Vec<String> {
    let mut off = 0;
    let mut r = BTreeSet::new();
    for a in alts {
        for (i, x) in a.nodes.iter().enumerate() {
            r.insert(x.var.map(|x| x.to_string()).unwrap_or((off + i + 1).to_string()));
        }
        off += a.nodes.len();
    }
    r.into_iter().collect()
}

/// the matches of the alternatives, None if the result is left open by the definition
fn alternatives(c: &Corpus, alts: &[Conj]) -> Option<Vec<BTreeSet<Vec<M>>>> {
    let mut r = vec![];
    for a in alts {
        let (must, may) = c.matches(a);
        if must != may {
            return None;
        }
        r.push(must);
    }
    Some(r)
}

fn values(c: &Corpus, alts: &[Conj], alt: usize, t: &[M], defs: &[Def]) -> Vec<String> {
    defs.iter()
        .map(|(ns, name, v)| {
            let pos = var(alts, v);
            let p = match pos[alt] {
                Some((_, p)) => p,
                None => pos.iter().flatten().next().map(|x| x.0),
            };
            let Some((node, _)) = p.and_then(|p| t.get(p)) else { return s("") };
            let l = &c.m.nodes[node];
            match ns {
                Some(ns) => l.get(&q(ns, name)).cloned().unwrap_or_default(),
                None => l.iter().filter(|((_, n), _)| n == name).map(|x| x.1.clone()).last().unwrap_or_default(),
            }
        })
        .collect()
}

/// None if the row of a match depends on the alternative to which it belongs
fn table(c: &Corpus, alts: &[Conj], ms: &[BTreeSet<Vec<M>>], defs: &[Def], out: &mut Table) -> Option<()> {
    let all: BTreeSet<&Vec<M>> = ms.iter().flatten().collect();
    for t in all {
        let rows: BTreeSet<Vec<String>> = (0..ms.len()).filter(|i| ms[*i].contains(t)).map(|i| values(c, alts, i, t, defs)).collect();
        if rows.len() != 1 {
            return None;
        }
        *out.entry(rows.into_iter().next().unwrap()).or_default() += 1;
    }
    Some(())
}

fn entries_of(defs: &[Def], parsed: bool) -> Result<Vec<FrequencyDefEntry>, String> {
    defs.iter()
        .map(|(ns, name, v)| {
            if parsed {
                let text = format!("{v}:{}{name}", ns.map(|x| format!("{x}::")).unwrap_or_default());
                es(text.parse::<FrequencyDefEntry>(), "parse definition")
            } else {
                Ok(FrequencyDefEntry { ns: ns.map(|x| x.to_string()), name: name.to_string(), node_ref: v.clone() })
            }
        })
        .collect()
}

fn run_one(run: &Run, cs: &CorpusStorage, names: &[&str], text: &str, defs: &[Def], expected: &Table, parsed: bool) -> Result<(), String> {
    let q = SearchQuery { corpus_names: names, query: text, query_language: QueryLanguage::AQL, timeout: None };
    let t = es(cs.frequency(q, entries_of(defs, parsed)?), "frequency")?;
    run.trans(1);
    let mut got = Table::new();
    let mut last = usize::MAX;
    for r in &t {
        must!(r.count <= last, "rows of {defs:?} are not ordered by descending count");
        last = r.count;
        must!(got.insert(r.values.clone(), r.count).is_none(), "two rows for {:?} of {defs:?}", r.values);
    }
    must_eq!(got, *expected, "table of {defs:?}");
    Ok(())
}

const KEYS: [(Option<&str>, &str); 10] = [(None, "tok"), (None, "pos"), (Some("n"), "pos"), (Some("m"), "pos"), (None, "cat"), (Some("annis"), "node_name"), (Some("annis"), "doc"), (Some("annis"), "pos"), (None, "none"), (None, "node_type")];

fn definitions(vs: &[String], full: bool) -> Vec<Vec<Def>> {
    let mut one: Vec<Def> = vec![];
    for v in vs {
        for (ns, n) in KEYS {
            one.push((ns, n, v.clone()));
        }
    }
    let mut r: Vec<Vec<Def>> = vec![vec![]];
    r.extend(one.iter().map(|d| vec![d.clone()]));
    // pairs: the same node, other node, order of the columns
    let k = if full { KEYS.len() } else { 3 };
    for a in vs {
        for b in vs {
            for (i, x) in KEYS[..k].iter().enumerate() {
                for (j, y) in KEYS[..k].iter().enumerate() {
                    if full || (i + j) % 2 == 1 || a != b {
                        r.push(vec![(x.0, x.1, a.clone()), (y.0, y.1, b.clone())]);
                    }
                }
            }
        }
    }
    if vs.len() >= 2 {
        r.push(vec![(None, "pos", vs[1].clone()), (None, "tok", vs[0].clone()), (Some("annis"), "node_name", vs[1].clone()), (None, "tok", vs[1].clone())]);
    }
    r
}

fn queries(full: bool) -> Vec<Vec<Conj>> {
    let sp = specs(true);
    let one = |s: Spec| Conj { nodes: vec![n(s)], lits: vec![] };
    let two = |a: Spec, op: Op, b: Spec| Conj { nodes: vec![n(a), n(b)], lits: vec![Lit::Bin(0, op, 1, false)] };
    let named = |x: Qn2, v: &'static str| Qn2 { var: Some(v), ..x };
    let cat = Spec::Anno(None, "cat", None);
    let pos = Spec::Anno(None, "pos", None);
    let mut r: Vec<Vec<Conj>> = vec![];
    for x in [sp[0], sp[1], sp[3], sp[4], cat, pos, Spec::Anno(Some("annis"), "doc", None), Spec::Anno(None, "none", None)] {
        r.push(vec![one(x)]);
    }
    r.push(vec![two(sp[1], Op::Prec(None, ONE), sp[1])]);
    r.push(vec![two(cat, Op::Incl, sp[1])]);
    r.push(vec![two(sp[0], Op::Dom("", ONE, None), sp[0])]);
    r.push(vec![Conj { nodes: vec![named(n(pos), "b"), named(n(pos), "a")], lits: vec![Lit::Bin(0, Op::Prec(None, ALL), 1, false)] }]);
    // alternatives
    r.push(vec![one(sp[1]), one(cat)]);
    r.push(vec![one(pos), one(Spec::Anno(Some("n"), "pos", None))]);
    r.push(vec![two(sp[1], Op::Prec(None, ONE), sp[1]), one(cat)]);
    r.push(vec![one(cat), two(sp[1], Op::Prec(None, ONE), sp[1])]);
    r.push(vec![Conj { nodes: vec![named(n(pos), "x")], lits: vec![] }, Conj { nodes: vec![n(cat), named(n(sp[1]), "x")], lits: vec![Lit::Bin(0, Op::Incl, 1, false)] }]);
    // nodes which are not part of the match
    r.push(vec![Conj { nodes: vec![opt(sp[1]), n(cat)], lits: vec![Lit::Bin(1, Op::Dom("", ONE, None), 0, true)] }]);
    r.push(vec![Conj { nodes: vec![opt(sp[1]), n(cat), n(sp[1])], lits: vec![Lit::Bin(1, Op::Dom("", ONE, None), 0, true), Lit::Bin(1, Op::Over, 2, false)] }]);
    r.push(vec![one(sp[1]), Conj { nodes: vec![opt(sp[1]), n(cat)], lits: vec![Lit::Bin(1, Op::Dom("", ONE, None), 0, true)] }]);
    r.push(vec![Conj { nodes: vec![opt(sp[4]), n(sp[1])], lits: vec![Lit::Bin(1, Op::Prec(None, ONE), 0, true)] }, one(cat)]);
    if full {
        for o in ops(true) {
            r.push(vec![two(sp[0], o, sp[0])]);
            r.push(vec![two(pos, o, sp[1])]);
        }
        r.extend(complex(false).into_iter().step_by(5));
    }
    r
}

pub fn check(run: &Run) {
    *run.rule.lock().unwrap() = "the frequency table of every definition (each node and key, pairs, several columns) of every query over one and several corpora compared with the histogram of the matches of the definition of the language; distinct = (corpora, query, definition)".into();
    let full = !run.q(true, false);
    let ens = entries();
    let qs = queries(full);
    let by: BTreeMap<&str, &Entry> = ens.iter().map(|e| (e.name, e)).collect();
    let mut groups: Vec<Vec<&str>> = ens.iter().map(|e| vec![e.name]).collect();
    groups.push(vec!["texts", "rich"]);
    groups.push(vec!["single", "rich", "layers"]);
    groups.push(vec!["texts", "texts"]);
    let mut work = vec![];
    for disk in [true, false] {
        for g in &groups {
            let parts = 3;
            for k in 0..parts {
                if !disk || full || g.len() == 1 {
                    work.push((disk, g, k, parts));
                }
            }
        }
    }
    run.par_n(8, 1, work.into_iter(), |(disk, g, k, parts)| {
        let dir = tmpdir("c13");
        let r = guarded(|| {
            let cs = open(dir.path(), false)?;
            for n in g.iter().collect::<BTreeSet<_>>() {
                create(&cs, n, &by[n].evs, disk)?;
                if disk {
                    es(cs.reoptimize_implementation(n, true), "reoptimize")?;
                }
            }
            for alts in qs.iter().skip(k).step_by(parts) {
                let Some(ms) = g.iter().map(|n| alternatives(&by[n].c, alts)).collect::<Option<Vec<_>>>() else { continue };
                let text = query_text(alts);
                run.case(
                    || format!("{}/{}/{text}", g.join("+"), if disk { "disk" } else { "mem" }),
                    || {
                        let mut total = 0;
                        for defs in definitions(&vars(alts), full && ms.iter().flatten().map(|x| x.len()).sum::<usize>() < 2000) {
                            let mut t = Table::new();
                            if g.iter().zip(&ms).all(|(n, m)| table(&by[n].c, alts, m, &defs, &mut t).is_some()) {
                                total += 1;
                                run_one(run, &cs, g, &text, &defs, &t, total % 2 == 0).map_err(|e| format!("query {text:?} on {}: {e}", g.join("+")))?;
                                run.outcome(&t);
                                run.state(&(g, &text, format!("{defs:?}"), disk));
                            }
                        }
                        Ok(())
                    },
                );
            }
            Ok(())
        });
        if let Err(e) = r {
            run.case(|| format!("setup/{}/{k}", g.join("+")), || Err(e));
        }
    });
    run.note("bounds", json!({"corpus selections": groups.len(), "queries": qs.len(), "columns": "up to 4"}));
}
