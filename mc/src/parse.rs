//! C17: parsing is total and preserves the meaning of the text.
use crate::aql::*;
use crate::aqlcheck::{Built, build, corpora, specs};
use crate::cs;
use crate::must;
use crate::run::*;
use graphannis::CorpusStorage;
use graphannis::corpusstorage::{QueryLanguage, ResultOrder, SearchQuery};
use graphannis::errors::GraphAnnisError;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

/// the location of an error lies in the text
fn location(text: &str, e: &GraphAnnisError) -> Result<(), String> {
    let l = match e {
        GraphAnnisError::AQLSyntaxError(e) | GraphAnnisError::AQLSemanticError(e) => &e.location,
        _ => return Ok(()),
    };
    let Some(l) = l else { return Ok(()) };
    let lines: Vec<&str> = text.split('\n').collect();
    let ok = |line: usize, col: usize| line < lines.len() && col >= 1 && col <= lines[line].len() + 1;
    must!(ok(l.start.line, l.start.column), "{text:?}: location {l} of the error {e} is not in the text");
    if let Some(end) = &l.end {
        must!(ok(end.line, end.column), "{text:?}: end of location {l} of the error {e} is not in the text");
        must!((l.start.line, l.start.column) <= (end.line, end.column), "{text:?}: location {l} of the error {e} ends before its start");
    }
    Ok(())
}

fn total(text: &str, quirks: bool) -> Result<Option<graphannis::aql::Disjunction>, String> {
    match guarded(|| match graphannis::aql::parse(text, quirks) {
        Ok(q) => Ok(Some(q)),
        Err(e) => {
            // the message can be displayed
            let _ = e.to_string();
            location(text, &e)?;
            Ok(None)
        }
    }) {
        Ok(r) => Ok(r),
        Err(e) => Err(format!("text {text:?} (quirks mode {quirks}): {e}")),
    }
}

/// all sequences of `k` items
fn sequences(items: &[&str], k: usize, sep: &str, f: &mut dyn FnMut(&str) -> Result<(), String>) -> Result<(), String> {
    let mut idx = vec![0; k];
    loop {
        let t: Vec<&str> = idx.iter().map(|i| items[*i]).collect();
        f(&t.join(sep))?;
        let mut i = k;
        loop {
            if i == 0 {
                return Ok(());
            }
            i -= 1;
            idx[i] += 1;
            if idx[i] < items.len() {
                break;
            }
            idx[i] = 0;
        }
    }
}

const CHARS: [&str; 32] = ["a", "#", "1", "\"", "/", "\\", "&", "|", "(", ")", ".", ",", "*", ">", "-", "^", "@", "_", "=", "!", "?", ":", "[", "]", " ", "\n", "\r", "é", "💥", "tok", "9999999999999999999999", "meta::"];

const TOKENS: [&str; 39] = [
    "tok", "node", "pos", "n:pos", "\"a\"", "/a/", "/(/", "=", "!=", "==", "&", "|", "(", ")", ".", ".*", ".1,2", ".seg", ">", "->dep", "_o_", "_ident_", "^", "@*", "!", "?", "#1", "#2", "#3", "#x", "x#", "#99999999999999999999", ":arity", "[n:func=\"obj\"]", "2", ",", "meta::doc=\"d\"",
    "[func=/(/]", "99999999999999999999",
];

fn check_total(run: &Run) {
    let chars = run.q(4, 5);
    let mut work = vec![];
    work.push(("", 0));
    for k in 1..=chars {
        for c in CHARS {
            work.push((c, k - 1));
        }
    }
    work.reverse();
    run.par_n(8, 1, work.into_iter(), |(c, k)| {
        run.case(
            || format!("chars/{c:?}/{k}"),
            || {
                let mut count = 0;
                sequences(&CHARS, k, "", &mut |rest| {
                    for quirks in [false, true] {
                        if quirks && k > 3 {
                            continue;
                        }
                        let r = total(&format!("{c}{rest}"), quirks)?;
                        count += 1;
                        if r.is_some() {
                            run.state(&(c, rest));
                        }
                    }
                    Ok(())
                })?;
                run.trans(count);
                Ok(())
            },
        );
    });
    // large texts
    let n = run.q(3000, 20000);
    let mut large = vec![];
    for (name, t) in [
        ("and", vec!["tok"; n].join(" & ")),
        ("or", vec!["tok"; n].join(" | ")),
        ("chain", vec!["tok"; n].join(" . ")),
        ("references", vec!["#1"; n].join(" . ")),
        ("values", vec!["#1"; n].join(" == ")),
        ("parentheses", format!("{}tok{}", "(".repeat(n), ")".repeat(n))),
        ("open", "(".repeat(n)),
        ("lines", "tok\n".repeat(n)),
        ("alternatives", vec!["(tok & pos & #1 . #2)"; n / 3].join(" | ")),
        ("nested and", format!("{}tok{}", "(tok & ".repeat(n), ")".repeat(n))),
        ("nested or", format!("{}tok{}", "(tok | ".repeat(n), ")".repeat(n))),
        ("value", format!("\"{}\"", "a".repeat(n * 10))),
        ("number", format!("tok .{} tok", "1".repeat(n))),
    ] {
        for quirks in [false, true] {
            large.push((name, t.clone(), quirks));
        }
    }
    run.par_n(4, 1, large.into_iter(), |(name, t, quirks)| {
        run.case(
            || format!("large/{name}/{quirks}"),
            || {
                total(&t, quirks).map_err(|e| e.chars().take(200).collect::<String>())?;
                run.trans(1);
                Ok(())
            },
        );
    });
}

fn sq<'a>(names: &'a [&'a str], text: &'a str, quirks: bool) -> SearchQuery<'a, &'a str> {
    SearchQuery { corpus_names: names, query: text, query_language: if quirks { QueryLanguage::AQLQuirksV3 } else { QueryLanguage::AQL }, timeout: None }
}

/// validation, planning and execution accept the same texts
fn accept(cs: &CorpusStorage, name: &str, text: &str, quirks: bool, full: bool) -> Result<bool, String> {
    let names = [name];
    let lang = || if quirks { QueryLanguage::AQLQuirksV3 } else { QueryLanguage::AQL };
    let r = guarded(|| {
        let v = cs.validate_query(&names, text, lang());
        let d = |e: GraphAnnisError| e.to_string();
        let c = cs.count(sq(&names, text, quirks)).map_err(d);
        if let Err(e) = &v {
            location(text, e)?;
        }
        let v = v.map_err(d);
        if let Ok(x) = &v {
            must!(*x, "validate_query returns false");
        }
        must!(v.is_ok() == c.is_ok(), "validation: {v:?}, count: {c:?}");
        if full {
            let f = cs.find(sq(&names, text, quirks), 0, None, ResultOrder::Normal).map_err(d);
            must!(f.is_ok() == v.is_ok(), "validation: {v:?}, find: {f:?}");
            if let (Ok(f), Ok(c)) = (&f, &c) {
                must!(f.len() as u64 == *c, "find returns {} results, count {c}", f.len());
            }
            let p = cs.plan(&names, text, lang()).map_err(d);
            must!(p.is_ok() == v.is_ok(), "validation: {v:?}, plan: {p:?}");
            let e = cs.count_extra(sq(&names, text, quirks)).map_err(d);
            must!(e.is_ok() == v.is_ok(), "validation: {v:?}, count_extra: {e:?}");
        }
        Ok(v.is_ok())
    });
    r.map_err(|e| format!("query {text:?} on {name} (quirks mode {quirks}): {e}"))
}

fn check_accept(run: &Run) {
    let depth = run.q(4, 5);
    let ens = cs::entries();
    let stores: Vec<&str> = vec!["rich", "single"];
    let mut work = vec![];
    for k in 1..=depth {
        for t in TOKENS {
            if k < depth {
                work.push((t, "", k - 1));
            } else {
                for u in TOKENS {
                    work.push((t, u, k - 2));
                }
            }
        }
    }
    work.reverse();
    // one storage per thread
    thread_local! {
        static CS: std::cell::OnceCell<(CorpusStorage, Box<dyn std::any::Any>)> = const { std::cell::OnceCell::new() };
    }
    run.par_n(8, 1, work.into_iter(), |(t, u, k)| {
        run.case(
            || format!("tokens/{t}/{u}/{k}"),
            || {
                CS.with(|c| {
                    if c.get().is_none() {
                        let dir = tmpdir("c17");
                        let cs = cs::open(dir.path(), false)?;
                        for en in &ens {
                            if stores.contains(&en.name) {
                                cs::create(&cs, en.name, &en.evs, false)?;
                            }
                        }
                        let _ = c.set((cs, Box::new(dir)));
                    }
                    let cs = &c.get().unwrap().0;
                    let mut count = 0;
                    let mut ok = 0u64;
                    sequences(&TOKENS, k, " ", &mut |rest| {
                        let text = [t, u, rest].iter().filter(|x| !x.is_empty()).copied().collect::<Vec<_>>().join(" ");
                        for quirks in [false, true] {
                            count += 1;
                            if total(&text, quirks)?.is_some() {
                                for (i, name) in stores.iter().enumerate() {
                                    if i == 0 || k < 2 {
                                        if accept(cs, name, &text, quirks, k < 2)? {
                                            ok += 1;
                                            run.state(&(&text, quirks));
                                        }
                                    }
                                }
                            }
                        }
                        Ok(())
                    })?;
                    run.trans(count);
                    run.outcome(&(t, u, k, ok));
                    Ok(())
                })
            },
        );
    });
}

// ---- formulas

#[derive(Clone)]
enum F {
    Leaf(Leaf),
    And(Box<F>, Box<F>),
    Or(Box<F>, Box<F>),
}

/// An operand: a named node or the reference to one
#[derive(Clone, Copy)]
enum Od {
    Node(&'static str, Spec, bool),
    Ref(&'static str),
}

#[derive(Clone)]
enum Leaf {
    Node(&'static str, Spec, bool),
    /// operands and the operators between them
    Chain(Vec<Od>, Vec<(Op, bool)>),
}

impl Leaf {
    fn text(&self) -> String {
        let node = |v: &str, s: &Spec, o: bool| format!("{}{s}{}", if v.is_empty() { String::new() } else { format!("{v}#") }, if o { "?" } else { "" });
        let od = |o: &Od| match o {
            Od::Node(v, s, o) => node(v, s, *o),
            Od::Ref(v) => format!("#{v}"),
        };
        match self {
            Leaf::Node(v, s, o) => node(v, s, *o),
            Leaf::Chain(os, ops) => {
                let mut r = od(&os[0]);
                for (o, (op, neg)) in os[1..].iter().zip(ops) {
                    r += &format!(" {}{op} {}", if *neg { "!" } else { "" }, od(o));
                }
                r
            }
        }
    }
}

impl F {
    /// `paren`: 0 only where needed, 1 around each operand, 2 with line breaks
    fn text(&self, paren: usize, top: bool) -> String {
        let (a, b, op, or) = match self {
            F::Leaf(l) => return if paren == 1 && !top { format!("({})", l.text()) } else { l.text() },
            F::And(a, b) => (a, b, "&", false),
            F::Or(a, b) => (a, b, "|", true),
        };
        let sub = |x: &F| {
            let need = match x {
                F::Leaf(_) => false,
                F::Or(..) => !or,
                F::And(..) => false,
            };
            let t = x.text(paren, false);
            if paren == 1 && !matches!(x, F::Leaf(_)) || need { format!("({t})") } else { t }
        };
        let sep = if paren == 2 { format!("\n{op}  ") } else if paren == 3 { op.to_string() } else { format!(" {op} ") };
        // the right operand of the same kind needs parentheses to keep the shape
        let right = match (&**b, or) {
            (F::And(..), false) | (F::Or(..), true) if paren != 1 => format!("({})", b.text(paren, false)),
            _ => sub(b),
        };
        format!("{}{sep}{right}", sub(a))
    }

    /// alternatives as sets of leafs (numbered in text order)
    fn dnf(&self, no: &mut usize) -> Vec<Vec<(usize, Leaf)>> {
        match self {
            F::Leaf(l) => {
                *no += 1;
                vec![vec![(*no, l.clone())]]
            }
            F::Or(a, b) => {
                let mut x = a.dnf(no);
                x.extend(b.dnf(no));
                x
            }
            F::And(a, b) => {
                let x = a.dnf(no);
                let y = b.dnf(no);
                let mut r = vec![];
                for i in &x {
                    for j in &y {
                        let mut v = i.clone();
                        v.extend(j.clone());
                        r.push(v);
                    }
                }
                r
            }
        }
    }
}

/// None if a reference has no node
fn conj(leafs: &[(usize, Leaf)]) -> Option<Conj> {
    let mut c = Conj::default();
    let mut by: BTreeMap<&str, usize> = BTreeMap::new();
    let mut add = |c: &mut Conj, v: &'static str, s: &Spec, o: bool| {
        c.nodes.push(Qn2 { spec: *s, optional: o, var: if v.is_empty() { None } else { Some(v) } });
        if !v.is_empty() {
            by.insert(v, c.nodes.len() - 1);
        }
        c.nodes.len() - 1
    };
    let mut chains: Vec<(Vec<Option<usize>>, &Leaf)> = vec![];
    for (_, l) in leafs {
        match l {
            Leaf::Node(v, s, o) => {
                add(&mut c, v, s, *o);
            }
            Leaf::Chain(os, _) => {
                let idx = os.iter().map(|o| if let Od::Node(v, s, o) = o { Some(add(&mut c, v, s, *o)) } else { None }).collect();
                chains.push((idx, l));
            }
        }
    }
    for (idx, l) in chains {
        let Leaf::Chain(os, ops) = l else { unreachable!() };
        let pos = |i: usize| match os[i] {
            Od::Node(..) => idx[i],
            Od::Ref(v) => by.get(v).copied(),
        };
        for (i, (op, neg)) in ops.iter().enumerate() {
            c.lits.push(Lit::Bin(pos(i)?, *op, pos(i + 1)?, *neg));
        }
    }
    Some(c)
}

fn check_formula(run: &Run, bs: &[Built], f: &F, paren: usize) -> Result<(), String> {
    let text = f.text(paren, true);
    run.trans(1);
    let alts: Vec<Option<Conj>> = f.dnf(&mut 0).iter().map(|a| conj(a)).collect();
    let parsed = total(&text, false)?;
    let d = match (parsed, alts.iter().cloned().collect::<Option<Vec<Conj>>>()) {
        (None, None) => return Ok(()),
        (Some(_), None) => return Err(format!("{text:?} was parsed, but has a reference to no node of its alternative")),
        (None, Some(_)) => return Err(format!("{text:?} was rejected: {:?}", graphannis::aql::parse(&text, false).map(|_| ()).map_err(|e| e.to_string()))),
        (Some(_), Some(a)) => a,
    };
    // optional nodes only with negated operators
    for b in bs {
        let n = crate::aqlcheck::compare(b, &text, &d).map_err(|e| format!("formula {text:?} on {}: {e}", b.name))?;
        run.outcome(&(&b.name, n, d.len()));
    }
    run.state(&text);
    Ok(())
}

/// all formulas with exactly `k` leafs
fn formulas(leafs: &[Leaf], k: usize) -> Vec<F> {
    if k == 1 {
        return leafs.iter().map(|l| F::Leaf(l.clone())).collect();
    }
    let mut r = vec![];
    for i in 1..k {
        let (a, b) = (formulas(leafs, i), formulas(leafs, k - i));
        for x in &a {
            for y in &b {
                r.push(F::And(Box::new(x.clone()), Box::new(y.clone())));
                r.push(F::Or(Box::new(x.clone()), Box::new(y.clone())));
            }
        }
    }
    r
}

fn defines(f: &F, r: &mut Vec<Vec<&'static str>>) {
    // variables per alternative
    for a in f.dnf(&mut 0) {
        let mut v = vec![];
        for (_, l) in a {
            match l {
                Leaf::Node(x, ..) => v.push(x),
                Leaf::Chain(os, _) => {
                    for o in os {
                        if let Od::Node(x, ..) = o {
                            v.push(x)
                        }
                    }
                }
            }
        }
        v.retain(|x| !x.is_empty());
        r.push(v);
    }
}

fn check_formulas(run: &Run) {
    let full = !run.q(true, false);
    let sp = specs(false);
    let pos = Spec::Anno(None, "pos", None);
    let cat = Spec::Anno(None, "cat", None);
    let rf = |a: &'static str, op: Op, b: &'static str, neg: bool| Leaf::Chain(vec![Od::Ref(a), Od::Ref(b)], vec![(op, neg)]);
    let both = |a: F, b: F| F::And(Box::new(a), Box::new(b));
    let leaf = |l: Leaf| F::Leaf(l);
    let mut all: Vec<F> = vec![];
    // operators between two nodes
    let l1 = vec![rf("a", Op::Prec(None, ONE), "b", false), rf("b", Op::Prec(None, ALL), "a", false), rf("a", Op::IdentCov, "b", false), rf("a", Op::Incl, "b", true), rf("a", Op::Eq, "b", false)];
    for k in 1..=run.q(3, 4) {
        for f in formulas(&l1[..if full && k < 4 { 5 } else { 4 }], k) {
            all.push(both(both(leaf(Leaf::Node("a", sp[1], false)), leaf(Leaf::Node("b", sp[0], false))), f.clone()));
            if k < 3 {
                // before the nodes
                all.push(both(f, both(leaf(Leaf::Node("a", pos, false)), leaf(Leaf::Node("b", sp[1], false)))));
            }
        }
    }
    // nodes in the formula
    let l2 = vec![
        Leaf::Node("a", sp[1], false),
        Leaf::Node("b", pos, false),
        Leaf::Chain(vec![Od::Ref("a"), Od::Ref("b")], vec![(Op::Prec(None, ALL), false)]),
        Leaf::Chain(vec![Od::Node("a", sp[1], false), Od::Node("b", sp[1], false)], vec![(Op::Prec(None, ONE), false)]),
        Leaf::Chain(vec![Od::Node("c", cat, false), Od::Ref("a")], vec![(Op::Incl, false)]),
        Leaf::Chain(vec![Od::Node("", cat, false), Od::Node("a", sp[1], false), Od::Ref("b")], vec![(Op::Incl, false), (Op::Prec(None, ONE), false)]),
    ];
    for k in 1..=run.q(3, 4) {
        for f in formulas(&l2[..if k < 4 { 6 } else { 4 }], k) {
            // the same name twice in one alternative is left open
            let mut d = vec![];
            defines(&f, &mut d);
            if d.iter().all(|v| v.iter().collect::<BTreeSet<_>>().len() == v.len()) {
                all.push(f);
            }
        }
    }
    let g: Vec<Built> = corpora().into_iter().filter(|(n, _)| ["tokens", "rich"].contains(n)).map(|(n, e)| build(n, e, false).expect("corpus")).collect();
    let total_formulas = all.len();
    let chunk = 64;
    let work: Vec<(usize, Vec<F>)> = all.chunks(chunk).map(|c| c.to_vec()).enumerate().collect();
    // a corpus for each thread
    let g = &g;
    run.par_n(8, 1, work.into_iter(), |(i, fs)| {
        run.case(
            || format!("formulas/{i}"),
            || {
                for (j, f) in fs.iter().enumerate() {
                    for paren in 0..4 {
                        if full || paren == (i * chunk + j) % 4 {
                            check_formula(run, &g[if full { 0 } else { j % 2 }..if full { 2 } else { j % 2 + 1 }], f, paren)?;
                        }
                    }
                }
                Ok(())
            },
        );
    });
    run.note("formulas", json!(total_formulas));
}

/// the descriptions of the query nodes
fn check_descriptions(run: &Run) {
    let sp = specs(true);
    let dir = tmpdir("c17d");
    let cs = match cs::open(dir.path(), false) {
        Ok(c) => c,
        Err(e) => return run.case(|| "open".into(), || Err(e)),
    };
    let forms = [Spec::Node, Spec::Tok, sp[3], sp[4], Spec::Anno(None, "pos", None), Spec::Anno(Some("n"), "pos", None), Spec::Anno(None, "cat", None), sp[5], sp[6], sp[8], sp[9], sp[10]];
    let mut qs: Vec<Vec<Conj>> = vec![];
    let op = Op::Prec(None, ONE);
    for a in forms {
        qs.push(vec![Conj { nodes: vec![n(a)], lits: vec![] }]);
        for b in forms {
            for (oa, ob) in [(false, false), (true, false), (false, true)] {
                for (va, vb) in [(None, None), (Some("x"), None), (None, Some("y")), (Some("x"), Some("y"))] {
                    let c = Conj { nodes: vec![Qn2 { spec: a, optional: oa, var: va }, Qn2 { spec: b, optional: ob, var: vb }], lits: vec![Lit::Bin(0, op, 1, oa || ob)] };
                    qs.push(vec![c.clone()]);
                    qs.push(vec![Conj { nodes: vec![n(b)], lits: vec![] }, c.clone()]);
                    qs.push(vec![c.clone(), Conj { nodes: vec![Qn2 { spec: a, optional: false, var: vb }], lits: vec![] }, c]);
                }
            }
        }
    }
    for alts in &qs {
        let texts = [query_text(alts), alts.iter().map(|c| c.chain().unwrap_or_else(|| c.text(0))).collect::<Vec<_>>().join(" | ")];
        for text in texts {
            run.case(
                || format!("descriptions/{text}"),
                || {
                    let got = es(cs.node_descriptions(&text, QueryLanguage::AQL), "node_descriptions").map_err(|e| format!("{text:?}: {e}"))?;
                    let mut exp = vec![];
                    let mut off = 0;
                    for (i, a) in alts.iter().enumerate() {
                        for (j, x) in a.nodes.iter().enumerate() {
                            let name = match x.spec {
                                Spec::Anno(_, n, None | Some((false, _))) => Some(n.to_string()),
                                _ => None,
                            };
                            exp.push((i, x.var.map(|v| v.to_string()).unwrap_or((off + j + 1).to_string()), name, x.optional, x.spec.to_string()));
                        }
                        off += a.nodes.len();
                    }
                    let g: Vec<_> = got.into_iter().map(|d| (d.alternative, d.variable, d.anno_name, d.optional, d.query_fragment)).collect();
                    must!(g == exp, "descriptions of {text:?} are {g:?}, expected {exp:?}");
                    run.trans(1);
                    run.state(&text);
                    Ok(())
                },
            );
        }
    }
}

pub fn check(run: &Run) {
    *run.rule.lock().unwrap() = "every text of up to 4 (thorough: 5) items over an alphabet of characters and special strings, every sequence of up to 4 (5) lexical units parsed, validated and executed, every formula with up to 3 (4) leafs compared with the result of its Boolean meaning, all node descriptions; distinct = accepted texts".into();
    check_descriptions(run);
    check_formulas(run);
    check_accept(run);
    check_total(run);
    run.note("bounds", json!({"alphabet": CHARS.len(), "lexical units": TOKENS.len(), "length": run.q(4, 5)}));
}
