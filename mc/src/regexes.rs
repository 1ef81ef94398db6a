//! C09: every short regular expression against every value
use crate::aqlcheck::build;
use crate::model::*;
use crate::must;
use crate::run::*;
use graphannis::AnnotationGraph;
use serde_json::json;
use std::collections::BTreeSet;

const ITEMS: [&str; 15] = ["a", "b", "-", ".", "*", "|", "(", ")", "^", "$", "\\b", "[", "]", "?", "(?i)"];
const VALUES: [&str; 13] = ["", "a", "b", "ab", "ba", "aa", "-", "A", "a-", "a\n", "\na", "a$b", "ä"];

pub fn check(run: &Run) {
    let dep = comp("Pointing", "p", "dep");
    let mut evs = vec![];
    for (i, v) in VALUES.iter().enumerate() {
        let n = format!("t{i}");
        evs.push(add_node(&n, "node"));
        evs.push(add_label(&n, "annis", "tok", v));
        evs.push(add_label(&n, "n", "pos", v));
        if i % 2 == 0 {
            evs.push(add_label(&n, "m", "pos", v));
        }
        if i > 0 {
            evs.push(add_edge("t0", &n, &dep));
            evs.push(add_elabel("t0", &n, &dep, "n", "func", v));
        }
        // segmentation
        let s = format!("s{i}");
        evs.push(add_node(&s, "node"));
        evs.push(add_label(&s, "annis", "tok", v));
        evs.push(add_edge(&s, &n, &comp("Coverage", "annis", "")));
    }
    let len = run.q(4, 5);
    match build("regex", evs.clone(), false) {
        Ok(b) => patterns(run, &b.g, "regex", len),
        Err(e) => run.case(|| "regex".into(), || Err(e)),
    }
    let disk = || {
        let mut g = es(AnnotationGraph::with_default_graphstorages(true), "graph")?;
        es(g.apply_update(&mut update(&evs)?, |_| {}), "apply_update")?;
        Ok(g)
    };
    match disk() {
        Ok(g) => patterns(run, &g, "regex-disk", len - 1),
        Err(e) => run.case(|| "regex-disk".into(), || Err(e)),
    }
}

fn patterns(run: &Run, g: &AnnotationGraph, name: &str, len: usize) {
    let k = ITEMS.len();
    let total: usize = (0..=len).map(|l| k.pow(l as u32)).sum();
    let chunk = 500;
    run.par_n(8, 1, 0..total.div_ceil(chunk), |c| {
        run.case(
            || format!("{name}/{c}"),
            || {
                for i in c * chunk..total.min((c + 1) * chunk) {
                    let (mut l, mut x) = (0, i);
                    while x >= k.pow(l) {
                        x -= k.pow(l);
                        l += 1;
                    }
                    let mut p = String::new();
                    for _ in 0..l {
                        p.push_str(ITEMS[x % k]);
                        x /= k;
                    }
                    let Ok(re) = regex::Regex::new(&p) else {
                        // only without a crash
                        if let Ok(q) = graphannis::aql::parse(&format!("pos=/{p}/"), false) {
                            let _ = graphannis::aql::execute_query_on_graph(g, &q, false, None).map(|x| x.count());
                        }
                        run.trans(1);
                        continue;
                    };
                    let re = regex::Regex::new(&format!("^(?:{})$", re.as_str())).map_err(|e| format!("{p}: {e}"))?;
                    let yes: Vec<bool> = VALUES.iter().map(|v| re.is_match(v)).collect();
                    let set = |f: &dyn Fn(usize) -> Option<Vec<String>>| (0..VALUES.len()).filter_map(f).flatten().collect::<BTreeSet<String>>();
                    let exps: Vec<(String, BTreeSet<String>)> = vec![
                        (format!("pos=/{p}/"), set(&|i| yes[i].then(|| vec![format!("t{i} n"), format!("t{i} m")].into_iter().take(1 + (i + 1) % 2).collect()))),
                        (format!("n:pos!=/{p}/"), set(&|i| (!yes[i]).then(|| vec![format!("t{i} n")]))),
                        (format!("tok=/{p}/"), set(&|i| yes[i].then(|| vec![format!("t{i} annis")]))),
                        (format!("tok!=/{p}/"), set(&|i| (!yes[i]).then(|| vec![format!("t{i} annis")]))),
                        (format!("/{p}/"), set(&|i| yes[i].then(|| vec![format!("t{i} annis"), format!("s{i} annis")]))),
                        (format!("node & tok & #1 ->dep[func=/{p}/] #2"), set(&|i| (yes[i] && i > 0).then(|| vec![format!("t0 annis t{i} annis")]))),
                        (format!("node & tok & #1 ->dep[n:func!=/{p}/] #2"), set(&|i| (!yes[i] && i > 0).then(|| vec![format!("t0 annis t{i} annis")]))),
                    ];
                    for (t, exp) in exps {
                        let q = es(graphannis::aql::parse(&t, false), &t)?;
                        let mut got = BTreeSet::new();
                        for m in es(graphannis::aql::execute_query_on_graph(g, &q, false, None), &t)? {
                            let m = es(m, &t)?;
                            let mut s = vec![];
                            for x in m {
                                let n = es(g.get_node_annos().get_value_for_item(&x.node, &graphannis_core::graph::NODE_NAME_KEY), "name")?.unwrap_or_default().to_string();
                                s.push(format!("{n} {}", x.anno_key.ns));
                            }
                            must!(got.insert(s.join(" ")), "{t}: match {s:?} found twice");
                        }
                        run.trans(1);
                        must!(got == exp, "query {t:?} found {got:?}, expected {exp:?}; values are {VALUES:?}");
                    }
                }
                Ok(())
            },
        );
    });
    run.note(&format!("patterns {name}"), json!(total));
}
