//! C09: the result of every query of a bounded set compared with the definition of the language.
use crate::aql::*;
use crate::model::*;
use crate::must;
use crate::run::*;
use graphannis::AnnotationGraph;
use graphannis_core::graph::update::UpdateEvent;
use serde_json::json;
use std::collections::BTreeSet;

pub struct Built {
    pub name: String,
    pub g: AnnotationGraph,
    pub c: Corpus,
    pub evs: Vec<UpdateEvent>,
}

pub fn build(name: &str, evs: Vec<UpdateEvent>, stats: bool) -> Result<Built, String> {
    let mut m = Model::default();
    for e in &evs {
        m.apply(e, &|_| true);
    }
    let mut g = es(AnnotationGraph::with_default_graphstorages(false), "with_default_graphstorages")?;
    es(g.apply_update(&mut update(&evs)?, |_| {}), "apply_update")?;
    if stats {
        es(g.calculate_all_statistics(), "calculate_all_statistics")?;
    }
    Ok(Built { name: format!("{name}{}", if stats { "+stats" } else { "" }), g, c: Corpus::new(&m), evs })
}

fn ord() -> Comp {
    comp("Ordering", "annis", "")
}
fn cov() -> Comp {
    comp("Coverage", "annis", "")
}

struct B(Vec<UpdateEvent>, &'static str);
impl B {
    fn node(&mut self, n: &str) -> &mut B {
        self.0.push(add_node(n, "node"));
        if !self.1.is_empty() {
            self.0.push(add_edge(n, self.1, &comp("PartOf", "annis", "")));
        }
        self
    }
    fn l(&mut self, n: &str, ns: &str, name: &str, v: &str) -> &mut B {
        self.0.push(add_label(n, ns, name, v));
        self
    }
    fn e(&mut self, a: &str, b: &str, c: &Comp) -> &mut B {
        self.0.push(add_edge(a, b, c));
        self
    }
    fn el(&mut self, a: &str, b: &str, c: &Comp, ns: &str, name: &str, v: &str) -> &mut B {
        self.e(a, b, c);
        self.0.push(add_elabel(a, b, c, ns, name, v));
        self
    }
    fn toks(&mut self, names: &[&str], texts: &[&str]) -> &mut B {
        for (i, n) in names.iter().enumerate() {
            self.node(n).l(n, "annis", "tok", texts[i]);
            if i > 0 {
                self.e(names[i - 1], n, &ord());
            }
        }
        self
    }
    fn span(&mut self, n: &str, over: &[&str]) -> &mut B {
        self.node(n);
        for t in over {
            self.e(n, t, &cov());
        }
        self
    }
    fn doc(&mut self, root: &str, d: &'static str) -> &mut B {
        self.1 = "";
        self.0.push(add_node(root, "corpus"));
        self.0.push(add_node(d, "corpus"));
        self.l(d, "annis", "doc", d);
        self.e(d, root, &comp("PartOf", "annis", ""));
        self.1 = d;
        self
    }
}

/// the fixed corpora with all kinds of content
pub fn corpora() -> Vec<(&'static str, Vec<UpdateEvent>)> {
    let mut r = vec![];
    let (d0, d1) = (comp("Dominance", "l", ""), comp("Dominance", "l", "edge"));
    let dep = comp("Pointing", "p", "dep");
    let dep2 = comp("Pointing", "q", "dep");
    let cor = comp("Pointing", "p", "coref");
    let seg = comp("Ordering", "default_ns", "dipl");
    {
        let mut b = B(vec![], "");
        b.doc("c", "d1").l("d1", "meta", "author", "x");
        b.toks(&["t1", "t2", "t3", "t4"], &["a", "b", "a", "c"]);
        b.l("t1", "n", "pos", "X").l("t1", "m", "pos", "X").l("t2", "n", "pos", "Y").l("t3", "m", "pos", "X").l("t4", "n", "lemma", "a");
        b.span("s1", &["t1", "t2"]).l("s1", "n", "cat", "S").span("s2", &["t2", "t3"]).l("s2", "n", "cat", "T").l("s2", "n", "pos", "X");
        b.span("s3", &["t2", "t3"]).l("s3", "n", "cat", "S").span("s0", &["t1"]).l("s0", "n", "cat", "a");
        b.node("st1").node("st2").l("st1", "n", "cat", "S").l("st2", "n", "cat", "NP");
        b.e("st1", "st2", &d0).el("st1", "st2", &d1, "n", "func", "head").e("st2", "t2", &d0).e("st2", "t3", &d0).el("st2", "t2", &d1, "n", "func", "obj").e("st1", "t4", &d0);
        b.el("t1", "t2", &dep, "n", "func", "obj").el("t2", "t3", &dep, "n", "func", "subj").el("t2", "t3", &dep, "m", "func", "obj").e("t3", "t1", &dep).e("t4", "t2", &dep).el("s1", "s2", &cor, "n", "func", "obj").e("t1", "s2", &cor);
        b.doc("c", "d2").l("d2", "meta", "author", "y").toks(&["u1", "u2"], &["b", "a"]).l("u1", "n", "pos", "X").span("v1", &["u1", "u2"]).l("v1", "n", "cat", "S").node("w").l("w", "n", "cat", "T");
        b.e("w", "v1", &d0).e("u1", "u2", &dep);
        r.push(("rich", b.0));
    }
    {
        let mut b = B(vec![], "");
        b.toks(&["t1", "t2", "t3", "t4", "t5"], &["a", "b", "a", "a", "b"]).l("t1", "n", "pos", "X").l("t5", "n", "pos", "X").l("t3", "m", "pos", "a");
        b.e("t1", "t3", &dep).e("t3", "t5", &dep).e("t5", "t1", &dep2);
        r.push(("tokens", b.0));
    }
    {
        // segmentation over spans, nested coverage, a node covering nothing
        let mut b = B(vec![], "");
        b.doc("c", "d1").toks(&["t1", "t2", "t3", "t4"], &["", "", "", ""]);
        b.span("g1", &["t1", "t2"]).l("g1", "annis", "tok", "a").span("g2", &["t3"]).l("g2", "annis", "tok", "b").span("g3", &["t4"]).l("g3", "annis", "tok", "a");
        b.e("g1", "g2", &seg).e("g2", "g3", &seg).l("g1", "n", "pos", "X").l("g3", "n", "pos", "X");
        b.span("x", &["t1"]).e("x", "g2", &cov()).l("x", "n", "cat", "S").node("y").e("y", "x", &d0).e("y", "g1", &d1).l("y", "n", "cat", "S").node("z").l("z", "n", "cat", "S").l("z", "n", "pos", "X");
        b.e("z", "y", &dep).e("g1", "g3", &dep);
        r.push(("segmentation", b.0));
    }
    {
        // components of the same name in different layers, gaps in the order
        let mut b = B(vec![], "");
        b.toks(&["t1", "t2", "t3"], &["a", "b", "a"]).toks(&["u1", "u2"], &["a", "a"]);
        b.e("t1", "t2", &dep).e("t2", "t3", &dep2).e("t1", "u1", &dep).e("t1", "u1", &dep2).el("u1", "u2", &dep2, "n", "func", "obj").el("u1", "u2", &dep, "n", "func", "subj");
        b.span("s1", &["t1", "t2", "t3"]).span("s2", &["u1"]).l("s1", "n", "cat", "S").l("s2", "n", "cat", "S").l("t1", "n", "pos", "X").l("u2", "m", "pos", "X");
        b.e("s1", "t2", &d0).e("s2", "u2", &comp("Dominance", "k", "")).e("s1", "t1", &comp("Dominance", "k", "")).e("s2", "s1", &cor);
        r.push(("layers", b.0));
    }
    {
        // segmentation order directly on token
        let mut b = B(vec![], "");
        b.toks(&["t1", "t2", "t3", "t4"], &["a", "b", "a", "b"]).e("t1", "t3", &seg).e("t3", "t4", &seg).l("t3", "n", "pos", "X").l("t4", "n", "pos", "X");
        b.span("s1", &["t1", "t2"]).l("s1", "n", "cat", "S").span("s2", &["t3"]).l("s2", "n", "cat", "S").span("s4", &["t1", "t2", "t3", "t4"]).l("s4", "n", "cat", "T");
        b.e("s4", "s1", &dep).e("s1", "t2", &dep).e("s4", "s2", &dep);
        r.push(("segtok", b.0));
    }
    r
}

pub fn specs(full: bool) -> Vec<Spec> {
    let a = pat("\"a\"", |v| v == "a");
    let x = pat("\"X\"", |v| v == "X");
    let s = pat("\"S\"", |v| v == "S");
    let re = pat("/[aX]/", |v| v == "a" || v == "X");
    let mut r = vec![
        Spec::Node,
        Spec::Tok,
        Spec::TokV(false, a),
        Spec::AnyTok(a),
        Spec::Anno(None, "pos", None),
        Spec::Anno(None, "pos", Some((false, x))),
        Spec::Anno(Some("n"), "cat", Some((false, s))),
        Spec::Anno(None, "pos", Some((true, x))),
    ];
    if full {
        r.extend([
            Spec::TokV(true, a),
            Spec::TokV(false, re),
            Spec::TokV(true, re),
            Spec::AnyTok(re),
            Spec::AnyTok(pat("/.*/", |_| true)),
            Spec::AnyTok(pat("\"zz\"", |_| false)),
            Spec::TokV(false, pat("/b|c/", |v| v == "b" || v == "c")),
            Spec::TokV(true, pat("/.*/", |_| true)),
            Spec::Anno(Some("n"), "pos", None),
            Spec::Anno(Some("m"), "pos", Some((false, x))),
            Spec::Anno(Some("n"), "pos", Some((true, x))),
            Spec::Anno(None, "cat", Some((true, s))),
            Spec::Anno(None, "pos", Some((false, re))),
            Spec::Anno(None, "pos", Some((true, re))),
            Spec::Anno(None, "cat", Some((false, pat("/S|NP/", |v| v == "S" || v == "NP")))),
            Spec::Anno(None, "cat", Some((false, pat("/(?i)s/", |v| v == "S" || v == "s")))),
            Spec::Anno(Some("annis"), "doc", None),
            Spec::Anno(None, "author", None),
            Spec::Anno(None, "tokk", None),
            Spec::Anno(Some("annis"), "node_type", Some((false, pat("\"corpus\"", |v| v == "corpus")))),
            Spec::Anno(Some("annis"), "node_name", Some((false, pat("/[ts]1/", |v| v == "t1" || v == "s1")))),
            Spec::Anno(Some("x"), "pos", None),
            Spec::Anno(None, "pos", Some((false, pat("/.+/", |v| !v.is_empty())))),
        ]);
    }
    r
}

pub fn ops(full: bool) -> Vec<Op> {
    let obj = pat("\"obj\"", |v| v == "obj");
    let e = |ns, neg| Some(EAnno(ns, "func", neg, obj));
    let mut r = vec![
        Op::Dom("", ONE, None),
        Op::Dom("", ALL, None),
        Op::Dom("edge", ONE, None),
        Op::Ptr("dep", ONE, None),
        Op::Ptr("dep", ALL, None),
        Op::Ptr("dep", ONE, e(None, false)),
        Op::Prec(None, ONE),
        Op::Prec(None, ALL),
        Op::Prec(None, Rg(2, Some(3))),
        Op::Near(None, ONE),
        Op::Near(None, ALL),
        Op::PartOf(ONE),
        Op::PartOf(ALL),
        Op::Over,
        Op::IdentCov,
        Op::Incl,
        Op::Left,
        Op::Right,
        Op::Ident,
        Op::Prec(Some("dipl"), ONE),
        Op::Near(Some("dipl"), ALL),
    ];
    if full {
        r.extend([
            Op::Dom("", Rg(2, Some(2)), None),
            Op::Dom("", Rg(1, Some(2)), None),
            Op::Dom("edge", ALL, None),
            Op::Dom("edge", ONE, e(None, true)),
            Op::Dom("edge", ONE, e(Some("n"), false)),
            Op::Dom("none", ONE, None),
            Op::Ptr("dep", Rg(2, Some(2)), None),
            Op::Ptr("dep", Rg(2, Some(3)), None),
            Op::Ptr("dep", ONE, e(Some("n"), false)),
            Op::Ptr("dep", ONE, e(None, true)),
            Op::Ptr("coref", ONE, None),
            Op::Ptr("coref", ALL, None),
            Op::Ptr("coref", ONE, e(Some("m"), false)),
            Op::Prec(None, Rg(2, Some(2))),
            Op::Prec(None, Rg(1, Some(2))),
            Op::Near(None, Rg(2, Some(2))),
            Op::Near(None, Rg(1, Some(3))),
            Op::PartOf(Rg(2, Some(2))),
            Op::Prec(Some("dipl"), ALL),
            Op::Prec(Some("dipl"), Rg(2, Some(2))),
            Op::Near(Some("dipl"), ONE),
        ]);
    }
    r
}

/// Execute a query and compare with the definition
pub fn compare(b: &Built, text: &str, alts: &[Conj]) -> Result<usize, String> {
    let parsed = graphannis::aql::parse(text, false);
    let bound = alts.iter().all(|a| a.bound());
    let q = es(parsed, "parse")?;
    let it = graphannis::aql::execute_query_on_graph(&b.g, &q, false, None);
    if !bound {
        let e = match it {
            Err(e) => e.to_string(),
            Ok(it) => {
                let r: Vec<_> = it.take(3).collect();
                return Err(format!("query with nodes that are not bound has the result {r:?}"));
            }
        };
        must!(e.contains("not bound") || e.contains("bound"), "query with nodes that are not bound: {e}");
        return Ok(0);
    }
    let mut got: Vec<Vec<M>> = vec![];
    let annos = b.g.get_node_annos();
    for x in es(it, "execute")? {
        let x = es(x, "result")?;
        let mut t = vec![];
        for m in x.iter() {
            let n = es(annos.get_value_for_item(&m.node, &graphannis_core::graph::NODE_NAME_KEY), "name")?.ok_or("match without name")?.to_string();
            t.push((n, (m.anno_key.ns.to_string(), m.anno_key.name.to_string())));
        }
        got.push(t);
    }
    let (must, may) = b.c.query(alts);
    let set: BTreeSet<Vec<M>> = got.iter().cloned().collect();
    let names = |s: &Vec<&Vec<M>>| s.iter().take(6).map(|t| t.iter().map(|(n, k)| format!("{n}/{}:{}", k.0, k.1)).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join("; ");
    must!(set.len() == got.len(), "the result contains {} matches, but only {} are different", got.len(), set.len());
    let missing: Vec<_> = must.difference(&set).collect();
    let wrong: Vec<_> = set.difference(&may).collect();
    must!(missing.is_empty() && wrong.is_empty(), "{} matches are missing: {}; {} are wrong: {} (found {}, expected {})", missing.len(), names(&missing), wrong.len(), names(&wrong), set.len(), must.len());
    Ok(set.len())
}

fn one(run: &Run, b: &Built, alts: &[Conj]) {
    one_text(run, b, alts, query_text(alts))
}
fn one_text(run: &Run, b: &Built, alts: &[Conj], text: String) {
    run.case(
        || format!("{}/{text}", b.name),
        || {
            let n = compare(b, &text, alts).map_err(|e| format!("query {text:?} on graph {:?}: {e}\n  graph: {}", b.name, show_all(&b.evs)))?;
            run.outcome(&(b.name.as_str(), text.as_str(), n));
            run.state(text.as_str());
            run.trans(1);
            Ok(())
        },
    );
}

fn two(a: Spec, op: Op, b: Spec) -> Conj {
    Conj { nodes: vec![n(a), n(b)], lits: vec![Lit::Bin(0, op, 1, false)] }
}

fn all_pairs(run: &Run, b: &Built, specs: &[Spec], ops: &[Op]) {
    let mut work = vec![];
    for a in specs {
        for o in ops {
            for c in specs {
                work.push(two(*a, *o, *c));
            }
        }
    }
    run.par_n(8, 64, work.into_iter(), |c| one(run, b, &[c]));
}


/// All contents with three token and two more nodes
fn small_graph(x: u32) -> Option<Vec<UpdateEvent>> {
    let mut v = x;
    let mut take = |n: u32| {
        let r = v % n;
        v /= n;
        r
    };
    let (d0, d1, dep) = (comp("Dominance", "l", ""), comp("Dominance", "l", "edge"), comp("Pointing", "p", "dep"));
    // S covers an interval of the token or nothing, D dominates S and/or token or covers S
    let s_cov = [0u32, 1, 3, 7, 6, 4][take(6) as usize];
    let d_kind = take(6);
    let point = take(4);
    let labels = take(4);
    let order = take(2);
    if v > 0 {
        return None;
    }
    let mut b = B(vec![], "");
    b.node("D").toks(&["t1", "t2", "t3"], &["a", "b", "a"]).node("S");
    if order == 1 {
        b.0.retain(|e| !matches!(e, UpdateEvent::AddEdge { target_node, .. } if target_node == "t3"));
    }
    for (i, t) in ["t1", "t2", "t3"].iter().enumerate() {
        if s_cov & (1 << i) != 0 {
            b.e("S", t, &cov());
        }
    }
    match d_kind {
        0 => {}
        1 => {
            b.e("D", "S", &d0).el("D", "t1", &d1, "n", "func", "obj");
        }
        2 => {
            b.e("D", "t2", &d0).e("D", "t1", &d0).el("D", "S", &d1, "n", "func", "obj");
        }
        3 => {
            b.e("D", "t2", &cov());
        }
        4 => {
            b.e("D", "S", &cov());
        }
        _ => {
            b.e("D", "S", &d1).e("D", "t1", &cov());
        }
    }
    match point {
        0 => {}
        1 => {
            b.el("t1", "t2", &dep, "n", "func", "obj").e("t2", "t3", &dep);
        }
        2 => {
            b.e("S", "t1", &dep).e("t1", "S", &dep).el("S", "D", &dep, "n", "func", "obj");
        }
        _ => {
            b.e("t1", "t2", &dep).e("t2", "t1", &dep).e("t1", "t3", &comp("Pointing", "q", "dep"));
        }
    }
    match labels {
        0 => {}
        1 => {
            b.l("t1", "n", "pos", "X").l("S", "n", "cat", "S");
        }
        2 => {
            b.l("S", "n", "pos", "X").l("D", "n", "pos", "X").l("D", "m", "pos", "Y");
        }
        _ => {
            b.l("t2", "m", "pos", "a").l("t3", "n", "pos", "a").l("D", "n", "cat", "S").l("S", "n", "cat", "S").l("t2", "n", "cat", "a");
        }
    }
    Some(b.0)
}
const SMALL: u32 = 6 * 6 * 4 * 4 * 2;

fn chain3(a: Spec, o1: Op, b: Spec, o2: Op, c: Spec) -> Conj {
    Conj { nodes: vec![n(a), n(b), n(c)], lits: vec![Lit::Bin(0, o1, 1, false), Lit::Bin(1, o2, 2, false)] }
}

/// queries with three nodes, several operators on the same nodes, negation, missing nodes, arity
pub fn complex(full: bool) -> Vec<Vec<Conj>> {
    let mut r: Vec<Vec<Conj>> = vec![];
    let a = pat("\"a\"", |v| v == "a");
    let sp = specs(false);
    let few = vec![sp[0], sp[1], sp[3], sp[4]];
    let o = vec![
        Op::Prec(None, ONE),
        Op::Over,
        Op::Incl,
        Op::IdentCov,
        Op::Left,
        Op::Dom("", ALL, None),
        Op::Ptr("dep", ONE, None),
        Op::Ident,
        Op::Near(None, ONE),
        Op::PartOf(ALL),
        Op::Right,
        Op::Prec(None, ALL),
        Op::Dom("edge", ONE, None),
        Op::Ptr("coref", ALL, None),
    ];
    let k = if full { o.len() } else { 8 };
    // chains, stars and triangles of three nodes
    let triples: Vec<(Spec, Spec, Spec)> = vec![(sp[0], sp[0], sp[0]), (sp[1], sp[0], sp[4]), (sp[3], sp[6], sp[1]), (sp[4], sp[4], sp[0]), (sp[6], sp[1], sp[6])];
    for (x, y, z) in &triples {
        for o1 in &o[..k] {
            for o2 in &o[..k] {
                r.push(vec![chain3(*x, *o1, *y, *o2, *z)]);
                let nodes = vec![n(*x), n(*y), n(*z)];
                r.push(vec![Conj { nodes: nodes.clone(), lits: vec![Lit::Bin(0, *o1, 1, false), Lit::Bin(0, *o2, 2, false)] }]);
                r.push(vec![Conj { nodes: nodes.clone(), lits: vec![Lit::Bin(0, *o1, 2, false), Lit::Bin(1, *o2, 2, false)] }]);
                for o3 in if full { &o[..6] } else { &o[..2] } {
                    r.push(vec![Conj { nodes: nodes.clone(), lits: vec![Lit::Bin(0, *o1, 1, false), Lit::Bin(1, *o2, 2, false), Lit::Bin(2, *o3, 0, false)] }]);
                    r.push(vec![Conj { nodes: nodes.clone(), lits: vec![Lit::Bin(0, *o1, 1, false), Lit::Bin(1, *o2, 2, false), Lit::Bin(0, *o3, 2, true)] }]);
                }
            }
        }
    }
    // two operators on the same pair, the second one possibly negated, in the same or the other direction
    for x in &few {
        for y in &few {
            for o1 in &o[..k] {
                for o2 in ops(full).iter().chain([Op::Eq, Op::Ne].iter()) {
                    for (neg, swap) in [(false, false), (true, false), (false, true), (true, true)] {
                        if neg && !o2.binding() {
                            continue;
                        }
                        let (l, rr) = if swap { (1, 0) } else { (0, 1) };
                        r.push(vec![Conj { nodes: vec![n(*x), n(*y)], lits: vec![Lit::Bin(0, *o1, 1, false), Lit::Bin(l, *o2, rr, neg)] }]);
                    }
                }
            }
        }
    }
    // negated operator with an optional operand
    for x in &sp {
        for y in &sp {
            for op in ops(full) {
                r.push(vec![Conj { nodes: vec![n(*x), opt(*y)], lits: vec![Lit::Bin(0, op, 1, true)] }]);
                r.push(vec![Conj { nodes: vec![opt(*x), n(*y)], lits: vec![Lit::Bin(0, op, 1, true)] }]);
            }
        }
    }
    for y in &few {
        for op in ops(false) {
            r.push(vec![Conj { nodes: vec![n(sp[0]), opt(*y), n(sp[1])], lits: vec![Lit::Bin(0, op, 1, true), Lit::Bin(0, Op::Incl, 2, false)] }]);
            r.push(vec![Conj { nodes: vec![opt(*y), n(sp[1]), n(sp[1])], lits: vec![Lit::Bin(0, op, 2, true), Lit::Bin(1, Op::Prec(None, ONE), 2, false)] }]);
        }
    }
    // arity
    for x in &sp {
        for rgs in [Rg(1, Some(1)), Rg(2, Some(2)), Rg(1, Some(3)), Rg(3, Some(4))] {
            r.push(vec![Conj { nodes: vec![n(*x)], lits: vec![Lit::Arity(0, rgs)] }]);
            r.push(vec![Conj { nodes: vec![n(*x), n(sp[0])], lits: vec![Lit::Bin(0, Op::Dom("", ALL, None), 1, false), Lit::Arity(1, rgs)] }]);
            r.push(vec![Conj { nodes: vec![n(sp[0]), n(*x)], lits: vec![Lit::Arity(0, rgs), Lit::Bin(0, Op::Ptr("dep", ONE, None), 1, false)] }]);
        }
    }
    // alternatives with different numbers of nodes, optional nodes and variables
    let single = |s: Spec| Conj { nodes: vec![n(s)], lits: vec![] };
    let named = |s: Spec, v: &'static str| Qn2 { spec: s, optional: false, var: Some(v) };
    for x in &sp {
        for y in &sp {
            r.push(vec![single(*x), single(*y)]);
            r.push(vec![two(*x, Op::Prec(None, ONE), *y), single(*y)]);
            r.push(vec![single(*x), two(*y, Op::Incl, *x)]);
            r.push(vec![two(*x, Op::Over, *y), two(*y, Op::Prec(None, ALL), *x), single(*x)]);
            r.push(vec![single(*x), Conj { nodes: vec![opt(*y), n(*x)], lits: vec![Lit::Bin(0, Op::Prec(None, ONE), 1, true)] }]);
            r.push(vec![Conj { nodes: vec![n(*x), opt(*y)], lits: vec![Lit::Bin(0, Op::Dom("", ONE, None), 1, true)] }, two(*x, Op::Incl, *y)]);
            r.push(vec![Conj { nodes: vec![opt(*y), n(*x)], lits: vec![Lit::Bin(0, Op::Prec(None, ONE), 1, true)] }, two(*x, Op::Incl, *y), single(*x)]);
            // variables
            r.push(vec![Conj { nodes: vec![named(*x, "x"), named(*y, "y")], lits: vec![Lit::Bin(1, Op::Incl, 0, false)] }]);
            r.push(vec![Conj { nodes: vec![n(*x), named(*y, "y"), n(*x)], lits: vec![Lit::Bin(1, Op::Prec(None, ONE), 0, false), Lit::Bin(2, Op::Incl, 1, false)] }]);
            // not bound
            r.push(vec![Conj { nodes: vec![n(*x), n(*y)], lits: vec![] }]);
            r.push(vec![Conj { nodes: vec![n(*x), n(*y)], lits: vec![Lit::Bin(0, Op::Eq, 1, false)] }]);
            r.push(vec![Conj { nodes: vec![n(*x), n(*y)], lits: vec![Lit::Bin(0, Op::Over, 1, true)] }]);
        }
    }
    // values
    let mut vals = specs(true);
    vals.push(Spec::Anno(None, "lemma", Some((false, a))));
    for x in &vals {
        for y in &vals {
            if !full && matches!(x, Spec::Anno(_, _, Some((true, _)))) {
                continue;
            }
            for op in [Op::Eq, Op::Ne] {
                for base in [Op::Prec(None, ONE), Op::Ident, Op::Over, Op::Ptr("dep", ONE, None)] {
                    r.push(vec![Conj { nodes: vec![n(*x), n(*y)], lits: vec![Lit::Bin(0, base, 1, false), Lit::Bin(0, op, 1, false)] }]);
                }
            }
        }
    }
    r
}

pub fn check(run: &Run) {
    *run.rule.lock().unwrap() = "every query of the bounded query space on every corpus, executed by the real engine on the real graph and compared with the set of matches the definition gives; distinct = distinct query texts".into();
    let only = std::env::var("MC_ONLY").unwrap_or_default();
    let full = !run.q(true, false);
    let cx = complex(full);
    for stats in [false, true] {
        for (name, evs) in corpora() {
            if !name.contains(&only) {
                continue;
            }
            let b = match build(name, evs, stats) {
                Ok(b) => b,
                Err(e) => {
                    run.case(|| format!("build/{name}"), || Err(e));
                    continue;
                }
            };
            assert!(!b.c.unclear, "{name}");
            for s in specs(true) {
                one(run, &b, &[Conj { nodes: vec![n(s)], lits: vec![] }]);
            }
            if full {
                all_pairs(run, &b, &specs(true), &ops(true));
            } else {
                all_pairs(run, &b, &specs(false), &ops(true));
                all_pairs(run, &b, &[specs(true), vec![]].concat()[8..], &ops(false)[..1]);
            }
            run.par_n(8, 64, cx.iter(), |q| one(run, &b, q));
        }
    }
    if only.is_empty() || only == "regex" {
        crate::regexes::check(run);
    }
    // every small graph
    let queries: Vec<Conj> = {
        let sp = specs(false);
        let l = if full { sp.clone() } else { vec![sp[0], sp[1], sp[4], sp[6]] };
        let mut r = vec![];
        for a in &l {
            for o in ops(full) {
                for b in &l {
                    r.push(two(*a, o, *b));
                }
            }
        }
        for s in &sp {
            r.push(Conj { nodes: vec![n(*s)], lits: vec![] });
        }
        r
    };
    let small = || {
        for stats in [false, true] {
            run.par_n(8, 4, 0..SMALL, |x| {
                let name = format!("small{x}");
                let Some(evs) = small_graph(x) else { return };
                let b = match build(&name, evs, stats) {
                    Ok(b) => b,
                    Err(e) => return run.case(|| format!("build/{name}"), || Err(e)),
                };
                if b.c.unclear {
                    return;
                }
                for q in &queries {
                    one(run, &b, std::slice::from_ref(q));
                }
            });
        }
    };
    if "small".contains(&only) {
        small();
    }
    run.note("bounds", json!({"specs": specs(true).len(), "operators": ops(true).len(), "complex queries": cx.len(), "corpora": corpora().len(), "small graphs": SMALL, "queries on small graphs": queries.len()}));
}
