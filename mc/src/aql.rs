//! Query language: abstract queries, their text and their meaning on a corpus given as plain maps.
use crate::model::*;
use crate::tokidx::derive;
use std::collections::{BTreeMap, BTreeSet};

/// Text of a value or regular expression with its meaning
#[derive(Clone, Copy)]
pub struct Pat {
    pub text: &'static str,
    pub f: fn(&str) -> bool,
}

#[derive(Clone, Copy)]
pub enum Spec {
    Node,
    Tok,
    TokV(bool, Pat),
    AnyTok(Pat),
    Anno(Option<&'static str>, &'static str, Option<(bool, Pat)>),
}

pub fn pat(text: &'static str, f: fn(&str) -> bool) -> Pat {
    Pat { text, f }
}

/// Range of distances: minimum, maximum (None: unbound)
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rg(pub usize, pub Option<usize>);
pub const ONE: Rg = Rg(1, Some(1));
pub const ALL: Rg = Rg(1, None);

#[derive(Clone, Copy)]
pub struct EAnno(pub Option<&'static str>, pub &'static str, pub bool, pub Pat);

#[derive(Clone, Copy)]
pub enum Op {
    Dom(&'static str, Rg, Option<EAnno>),
    Ptr(&'static str, Rg, Option<EAnno>),
    Prec(Option<&'static str>, Rg),
    Near(Option<&'static str>, Rg),
    PartOf(Rg),
    Over,
    IdentCov,
    Incl,
    Left,
    Right,
    Ident,
    Eq,
    Ne,
}

#[derive(Clone)]
pub enum Lit {
    Bin(usize, Op, usize, bool),
    Arity(usize, Rg),
}

#[derive(Clone)]
pub struct Qn2 {
    pub spec: Spec,
    pub optional: bool,
    pub var: Option<&'static str>,
}

#[derive(Clone, Default)]
pub struct Conj {
    pub nodes: Vec<Qn2>,
    pub lits: Vec<Lit>,
}

pub fn n(spec: Spec) -> Qn2 {
    Qn2 { spec, optional: false, var: None }
}
pub fn opt(spec: Spec) -> Qn2 {
    Qn2 { spec, optional: true, var: None }
}

impl std::fmt::Display for Spec {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let e = |neg: bool| if neg { "!=" } else { "=" };
        match self {
            Spec::Node => write!(f, "node"),
            Spec::Tok => write!(f, "tok"),
            Spec::TokV(neg, p) => write!(f, "tok{}{}", e(*neg), p.text),
            Spec::AnyTok(p) => write!(f, "{}", p.text),
            Spec::Anno(ns, name, v) => {
                if let Some(ns) = ns {
                    write!(f, "{ns}:")?;
                }
                write!(f, "{name}")?;
                if let Some((neg, p)) = v {
                    write!(f, "{}{}", e(*neg), p.text)?;
                }
                Ok(())
            }
        }
    }
}

fn rg(r: Rg, named: bool) -> String {
    match r {
        ONE => String::new(),
        ALL => if named { " *".into() } else { "*".into() },
        Rg(a, Some(b)) if a == b => format!("{}{a}", if named { "," } else { "" }),
        Rg(a, Some(b)) => format!("{}{a},{b}", if named { "," } else { "" }),
        Rg(_, None) => unreachable!(),
    }
}

impl std::fmt::Display for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let an = |a: &Option<EAnno>| match a {
            None => String::new(),
            Some(EAnno(ns, name, neg, p)) => format!("[{}{name}{}{}]", ns.map(|n| format!("{n}:")).unwrap_or_default(), if *neg { "!=" } else { "=" }, p.text),
        };
        match self {
            Op::Dom(name, r, a) => write!(f, ">{name}{}{}", rg(*r, !name.is_empty()), an(a)),
            Op::Ptr(name, r, a) => write!(f, "->{name}{}{}", rg(*r, true), an(a)),
            Op::Prec(s, r) => write!(f, ".{}{}", s.unwrap_or(""), rg(*r, s.is_some())),
            Op::Near(s, r) => write!(f, "^{}{}", s.unwrap_or(""), rg(*r, s.is_some())),
            Op::PartOf(r) => write!(f, "@{}", rg(*r, false)),
            Op::Over => write!(f, "_o_"),
            Op::IdentCov => write!(f, "_=_"),
            Op::Incl => write!(f, "_i_"),
            Op::Left => write!(f, "_l_"),
            Op::Right => write!(f, "_r_"),
            Op::Ident => write!(f, "_ident_"),
            Op::Eq => write!(f, "=="),
            Op::Ne => write!(f, "!="),
        }
    }
}

impl Op {
    pub fn reflexive(&self) -> bool {
        !matches!(self, Op::Over | Op::IdentCov | Op::Incl | Op::Left | Op::Right | Op::PartOf(_))
    }
    pub fn binding(&self) -> bool {
        !matches!(self, Op::Eq | Op::Ne)
    }
}

impl Conj {
    /// Reference to a node in the text, where `off` nodes are in previous alternatives
    fn r(&self, i: usize, off: usize) -> String {
        match self.nodes[i].var {
            Some(v) => format!("#{v}"),
            None => format!("#{}", i + off + 1),
        }
    }
    fn node_text(&self, i: usize) -> String {
        let x = &self.nodes[i];
        format!("{}{}{}", x.var.map(|v| format!("{v}#")).unwrap_or_default(), x.spec, if x.optional { "?" } else { "" })
    }
    fn lit_text(&self, l: &Lit, off: usize) -> String {
        match l {
            Lit::Bin(a, op, b, neg) => format!("{} {}{op} {}", self.r(*a, off), if *neg { "!" } else { "" }, self.r(*b, off)),
            Lit::Arity(a, Rg(x, y)) => format!("{}:arity={x}{}", self.r(*a, off), match y {
                Some(y) if y == x => String::new(),
                Some(y) => format!(",{y}"),
                None => unreachable!(),
            }),
        }
    }
    /// The parts of the conjunction: first the nodes, then the operators with references
    pub fn parts(&self, off: usize) -> Vec<String> {
        (0..self.nodes.len()).map(|i| self.node_text(i)).chain(self.lits.iter().map(|l| self.lit_text(l, off))).collect()
    }
    pub fn text(&self, off: usize) -> String {
        self.parts(off).join(" & ")
    }
    /// Written as chain of operands, if the operators connect each node with the next one
    pub fn chain(&self) -> Option<String> {
        if self.lits.len() + 1 != self.nodes.len() || self.lits.is_empty() {
            return None;
        }
        let mut r = self.node_text(0);
        for (i, l) in self.lits.iter().enumerate() {
            match l {
                Lit::Bin(a, op, b, neg) if *a == i && *b == i + 1 && op.binding() => {
                    r += &format!(" {}{op} {}", if *neg { "!" } else { "" }, self.node_text(i + 1));
                }
                _ => return None,
            }
        }
        Some(r)
    }
    /// All non-optional nodes are connected by binding operators
    pub fn bound(&self) -> bool {
        let need: Vec<usize> = (0..self.nodes.len()).filter(|i| !self.nodes[*i].optional).collect();
        let Some(first) = need.first() else { return true };
        let mut seen = BTreeSet::from([*first]);
        loop {
            let before = seen.len();
            for l in &self.lits {
                if let Lit::Bin(a, op, b, false) = l
                    && op.binding()
                    && (seen.contains(a) || seen.contains(b))
                {
                    seen.insert(*a);
                    seen.insert(*b);
                }
            }
            if seen.len() == before {
                return need.iter().all(|i| seen.contains(i));
            }
        }
    }
}

pub fn query_text(alts: &[Conj]) -> String {
    let mut off = 0;
    let mut r = vec![];
    for a in alts {
        r.push(if alts.len() > 1 { format!("({})", a.text(off)) } else { a.text(off) });
        off += a.nodes.len();
    }
    r.join(" | ")
}

/// matched node and annotation
pub type M = (String, Qn);

/// A corpus as the definition of the operators sees it
pub struct Corpus {
    pub m: Model,
    pub names: Vec<String>,
    idx: BTreeMap<String, usize>,
    token: Vec<bool>,
    left: Vec<Option<usize>>,
    right: Vec<Option<usize>>,
    /// covered token
    cov: Vec<BTreeSet<usize>>,
    /// lengths of the paths without repeated nodes as bits, for each component
    paths: BTreeMap<Comp, Vec<Vec<u64>>>,
    /// the covered token of some node have no first or last token
    pub unclear: bool,
}

fn path_lengths(n: usize, edges: &[(usize, usize)]) -> Vec<Vec<u64>> {
    let mut out = vec![vec![]; n];
    for (a, b) in edges {
        out[*a].push(*b);
    }
    let mut r = vec![vec![0u64; n]; n];
    fn walk(out: &[Vec<usize>], on: &mut Vec<bool>, x: usize, len: usize, r: &mut [u64]) {
        r[x] |= 1 << len;
        on[x] = true;
        for y in &out[x] {
            if !on[*y] {
                walk(out, on, *y, len + 1, r);
            }
        }
        on[x] = false;
    }
    for a in 0..n {
        if !out[a].is_empty() {
            walk(&out, &mut vec![false; n], a, 0, &mut r[a]);
        } else {
            r[a][a] = 1;
        }
    }
    r
}

fn in_range(bits: u64, r: Rg) -> bool {
    (0..64).any(|l| bits & (1 << l) != 0 && l >= r.0 && r.1.is_none_or(|m| l <= m))
}

impl Corpus {
    pub fn new(m: &Model) -> Corpus {
        let mut m = m.clone();
        m.edges.retain(|c, e| !crate::updates::is_derived(&c.0, &c.1, &c.2) && !e.is_empty());
        let d = derive(&m);
        let names: Vec<String> = m.nodes.keys().cloned().collect();
        let idx: BTreeMap<String, usize> = names.iter().enumerate().map(|(i, n)| (n.clone(), i)).collect();
        let mut unclear = d.unclear;
        let lt = |a: &String, b: &String| d.before.get(a).is_some_and(|x| x.contains(b));
        let mut left = vec![None; names.len()];
        let mut right = vec![None; names.len()];
        let mut cov = vec![BTreeSet::new(); names.len()];
        for (i, x) in names.iter().enumerate() {
            if d.token.contains(x) {
                left[i] = Some(i);
                right[i] = Some(i);
                cov[i].insert(i);
            } else if let Some(c) = d.covered.get(x)
                && !c.is_empty()
            {
                cov[i].extend(c.iter().map(|t| idx[t]));
                left[i] = c.iter().find(|a| c.iter().all(|b| a == &b || lt(a, b))).map(|a| idx[a]);
                right[i] = c.iter().find(|a| c.iter().all(|b| a == &b || lt(b, a))).map(|a| idx[a]);
                unclear |= left[i].is_none() || right[i].is_none();
            }
        }
        let mut paths = BTreeMap::new();
        for (c, es) in &m.edges {
            let es: Vec<(usize, usize)> = es.keys().map(|(a, b)| (idx[a], idx[b])).collect();
            paths.insert(c.clone(), path_lengths(names.len(), &es));
        }
        // covering something which neither is nor covers a token has no meaning in the data model
        for (c, es) in &m.edges {
            unclear |= c.0 == "Coverage" && es.keys().any(|(_, b)| cov[idx[b]].is_empty());
        }
        let token = names.iter().map(|n| d.token.contains(n)).collect();
        Corpus { m, names, idx, token, left, right, cov, paths, unclear }
    }

    fn connected(&self, c: &Comp, a: usize, b: usize, r: Rg) -> bool {
        match self.paths.get(c) {
            Some(p) => in_range(p[a][b], r),
            None => a == b && r.0 == 0,
        }
    }

    /// The matches of one query node
    pub fn domain(&self, s: &Spec) -> Vec<(usize, Qn)> {
        let mut r = vec![];
        let ty = q("annis", "node_type");
        let tk = q("annis", "tok");
        for (i, x) in self.names.iter().enumerate() {
            let l = &self.m.nodes[x];
            match s {
                Spec::Node => {
                    if l.get(&ty).is_some_and(|v| v == "node") {
                        r.push((i, ty.clone()));
                    }
                }
                Spec::Tok => {
                    if self.token[i] {
                        r.push((i, ty.clone()));
                    }
                }
                Spec::TokV(neg, p) => {
                    if self.token[i] && (p.f)(&l[&tk]) != *neg {
                        r.push((i, ty.clone()));
                    }
                }
                Spec::AnyTok(p) => {
                    if l.get(&tk).is_some_and(|v| (p.f)(v)) {
                        r.push((i, ty.clone()));
                    }
                }
                Spec::Anno(ns, name, v) => {
                    for (k, val) in l {
                        if k.1 == *name && ns.is_none_or(|n| n == k.0) && v.is_none_or(|(neg, p)| (p.f)(val) != neg) {
                            r.push((i, k.clone()));
                        }
                    }
                }
            }
        }
        r
    }

    fn value(&self, s: &Spec, x: &(usize, Qn)) -> Option<&String> {
        let l = &self.m.nodes[&self.names[x.0]];
        match s {
            Spec::Node => None,
            Spec::Tok | Spec::TokV(..) | Spec::AnyTok(_) => l.get(&q("annis", "tok")),
            Spec::Anno(..) => l.get(&x.1),
        }
    }

    fn edge_op(&self, ty: &str, name: &str, r: Rg, an: &Option<EAnno>, a: usize, b: usize) -> bool {
        self.m.edges.iter().any(|(c, es)| {
            c.0 == ty
                && c.2 == name
                && self.connected(c, a, b, r)
                && an.is_none_or(|EAnno(ns, name, neg, p)| {
                    es.get(&(self.names[a].clone(), self.names[b].clone()))
                        .is_some_and(|l| l.iter().any(|(k, v)| k.1 == name && ns.is_none_or(|n| n == k.0) && (p.f)(v) != neg))
                })
        })
    }

    pub fn holds(&self, op: &Op, sa: &Spec, a: &(usize, Qn), sb: &Spec, b: &(usize, Qn)) -> bool {
        let (x, y) = (a.0, b.0);
        let order = comp("Ordering", "annis", "");
        let any = Rg(0, None);
        let ends = || match (self.left[x], self.right[x], self.left[y], self.right[y]) {
            (Some(a), Some(b), Some(c), Some(d)) => Some((a, b, c, d)),
            _ => None,
        };
        match op {
            Op::Dom(name, r, an) => self.edge_op("Dominance", name, *r, an, x, y),
            Op::Ptr(name, r, an) => self.edge_op("Pointing", name, *r, an, x, y),
            Op::PartOf(r) => self.connected(&comp("PartOf", "annis", ""), x, y, *r),
            Op::Prec(Some(s), r) => self.connected(&comp("Ordering", "default_ns", s), x, y, *r),
            Op::Near(Some(s), r) => {
                let c = comp("Ordering", "default_ns", s);
                self.connected(&c, x, y, *r) || self.connected(&c, y, x, *r)
            }
            Op::Prec(None, r) => ends().is_some_and(|(_, rx, ly, _)| self.connected(&order, rx, ly, *r)),
            Op::Near(None, r) => ends().is_some_and(|(lx, rx, ly, ry)| self.connected(&order, rx, ly, *r) || self.connected(&order, ry, lx, *r)),
            Op::Over => ends().is_some() && !self.cov[x].is_disjoint(&self.cov[y]),
            Op::IdentCov => ends().is_some_and(|(lx, rx, ly, ry)| lx == ly && rx == ry),
            Op::Incl => ends().is_some_and(|(lx, rx, ly, ry)| self.connected(&order, lx, ly, any) && self.connected(&order, ry, rx, any)),
            Op::Left => ends().is_some_and(|(lx, _, ly, _)| lx == ly),
            Op::Right => ends().is_some_and(|(_, rx, _, ry)| rx == ry),
            Op::Ident => x == y,
            Op::Eq => matches!((self.value(sa, a), self.value(sb, b)), (Some(v), Some(w)) if v == w),
            Op::Ne => matches!((self.value(sa, a), self.value(sb, b)), (Some(v), Some(w)) if v != w),
        }
    }

    fn arity(&self, x: usize, r: &Rg) -> bool {
        let mut c = BTreeSet::new();
        for (k, es) in &self.m.edges {
            if k.0 == "Dominance" || k.0 == "Pointing" {
                c.extend(es.keys().filter(|(a, _)| *a == self.names[x]).map(|(_, b)| b));
            }
        }
        c.len() >= r.0 && r.1.is_none_or(|m| c.len() <= m)
    }

    /// The matches which have to be found and the ones which may be found: it is open if a node
    /// itself counts as counterexample for an optional operand of a non-reflexive operator.
    pub fn matches(&self, c: &Conj) -> (BTreeSet<Vec<M>>, BTreeSet<Vec<M>>) {
        let mut must = BTreeSet::new();
        let mut may = BTreeSet::new();
        let doms: Vec<Vec<(usize, Qn)>> = c.nodes.iter().map(|x| self.domain(&x.spec)).collect();
        let mut cur: Vec<Option<(usize, Qn)>> = vec![None; c.nodes.len()];
        self.extend(c, &doms, 0, &mut cur, false, &mut must, &mut may);
        (must, may)
    }

    /// Does the literal hold? None: open
    fn lit_ok(&self, c: &Conj, doms: &[Vec<(usize, Qn)>], l: &Lit, cur: &[Option<(usize, Qn)>]) -> Option<bool> {
        Some(match l {
            Lit::Arity(a, r) => self.arity(cur[*a].as_ref().unwrap().0, r),
            Lit::Bin(a, op, b, neg) => {
                let (sa, sb) = (&c.nodes[*a].spec, &c.nodes[*b].spec);
                let holds = |x: &(usize, Qn), y: &(usize, Qn)| self.holds(op, sa, x, sb, y);
                let other: Vec<bool> = if c.nodes[*a].optional {
                    let y = cur[*b].as_ref().unwrap();
                    doms[*a].iter().filter(|x| holds(x, y)).map(|x| op.reflexive() || x.0 != y.0).collect()
                } else if c.nodes[*b].optional {
                    let x = cur[*a].as_ref().unwrap();
                    doms[*b].iter().filter(|y| holds(x, y)).map(|y| op.reflexive() || x.0 != y.0).collect()
                } else {
                    return Some(holds(cur[*a].as_ref().unwrap(), cur[*b].as_ref().unwrap()) != *neg);
                };
                if other.contains(&true) {
                    return Some(false);
                } else if other.contains(&false) {
                    return None;
                }
                true
            }
        })
    }

    #[allow(clippy::too_many_arguments)]
    fn extend(&self, c: &Conj, doms: &[Vec<(usize, Qn)>], i: usize, cur: &mut Vec<Option<(usize, Qn)>>, open: bool, must: &mut BTreeSet<Vec<M>>, may: &mut BTreeSet<Vec<M>>) {
        if i == c.nodes.len() {
            // the operands of a non-reflexive operator are different from all other nodes
            for l in &c.lits {
                if let Lit::Bin(a, op, b, false) = l
                    && !op.reflexive()
                    && [*a, *b].iter().any(|p| (0..cur.len()).any(|o| o != *p && cur[o].is_some() && cur[o] == cur[*p]))
                {
                    return;
                }
            }
            let t: Vec<M> = cur.iter().flatten().map(|x| (self.names[x.0].clone(), x.1.clone())).collect();
            if !open {
                must.insert(t.clone());
            }
            may.insert(t);
            return;
        }
        let ready = |l: &Lit| {
            let last = |a: usize| if c.nodes[a].optional { None } else { Some(a) };
            let m = match l {
                Lit::Arity(a, _) => Some(*a),
                Lit::Bin(a, _, b, _) => last(*a).max(last(*b)),
            };
            m == Some(i)
        };
        if c.nodes[i].optional {
            return self.extend(c, doms, i + 1, cur, open, must, may);
        }
        for x in &doms[i] {
            cur[i] = Some(x.clone());
            let r: Vec<Option<bool>> = c.lits.iter().filter(|l| ready(l)).map(|l| self.lit_ok(c, doms, l, cur)).collect();
            if !r.contains(&Some(false)) {
                self.extend(c, doms, i + 1, cur, open || r.contains(&None), must, may);
            }
        }
        cur[i] = None;
    }

    pub fn query(&self, alts: &[Conj]) -> (BTreeSet<Vec<M>>, BTreeSet<Vec<M>>) {
        let mut r = (BTreeSet::new(), BTreeSet::new());
        for a in alts {
            let (x, y) = self.matches(a);
            r.0.extend(x);
            r.1.extend(y);
        }
        r
    }
    /// the first covered token
    pub fn left_of(&self, name: &str) -> Option<&String> {
        self.left[self.idx[name]].map(|i| &self.names[i])
    }
    pub fn index(&self, name: &str) -> Option<usize> {
        self.idx.get(name).copied()
    }
}
