//! Trusted equality reasoning: egg itself (a dependency, not the code under test) with no analysis.
use crate::sx::T;
use crate::tb;
use egg::{EGraph, Id, RecExpr, Rewrite, Runner, SimpleScheduler};
use ruler::SynthLanguage;
use std::collections::BTreeMap;
use std::time::Duration;

pub type EG<L> = EGraph<L, ()>;

pub fn rewrites<L: SynthLanguage>(rules: &[(T, T)]) -> Vec<Rewrite<L, ()>> {
    rules
        .iter()
        .enumerate()
        .map(|(i, (l, r))| {
            Rewrite::new(
                format!("r{}", i),
                tb::pattern::<L>(&tb::to_pat(l)),
                tb::pattern::<L>(&tb::to_pat(r)),
            )
            .unwrap()
        })
        .collect()
}

pub fn egraph<L: SynthLanguage>(ts: &[T]) -> EG<L> {
    let mut e = EG::<L>::default();
    for t in ts {
        e.add_expr(&tb::expr::<L>(t));
    }
    e.rebuild();
    e
}

pub enum End {
    Saturated,
    Iters,
    TooBig,
}

/// Exactly `iters` iterations (fewer when saturated); all matches of all rules.
pub fn run<L: SynthLanguage>(e: EG<L>, rules: &[Rewrite<L, ()>], iters: usize, nodes: usize) -> (EG<L>, End) {
    let mut r = Runner::<L, ()>::default()
        .with_scheduler(SimpleScheduler)
        .with_iter_limit(iters)
        .with_node_limit(nodes)
        .with_time_limit(Duration::from_secs(100_000))
        .with_egraph(e)
        .run(rules);
    r.egraph.rebuild();
    let end = match r.stop_reason.unwrap() {
        egg::StopReason::Saturated => End::Saturated,
        egg::StopReason::IterationLimit(_) => End::Iters,
        _ => End::TooBig,
    };
    (r.egraph, end)
}

pub fn find<L: SynthLanguage>(e: &EG<L>, t: &T) -> Option<Id> {
    let x: RecExpr<L> = tb::expr(t);
    e.lookup_expr(&x).map(|i| e.find(i))
}

/// Partition of term indices by class; None when a term is missing.
pub fn partition<I: Ord>(ids: impl IntoIterator<Item = Option<I>>) -> Option<Vec<Vec<usize>>> {
    let mut m: BTreeMap<I, Vec<usize>> = BTreeMap::new();
    for (i, id) in ids.into_iter().enumerate() {
        m.entry(id?).or_default().push(i);
    }
    let mut v: Vec<Vec<usize>> = m.into_values().collect();
    v.sort();
    Some(v)
}

/// Pairs (i, j) in the same block of `a` but in different blocks of `b`.
pub fn not_coarser(a: &[Vec<usize>], b: &[Vec<usize>]) -> Option<(usize, usize)> {
    let mut block = BTreeMap::new();
    for (k, v) in b.iter().enumerate() {
        for i in v {
            block.insert(*i, k);
        }
    }
    for v in a {
        for w in v.windows(2) {
            if block.get(&w[0]) != block.get(&w[1]) {
                return Some((w[0], w[1]));
            }
        }
    }
    None
}

/// All subterms (operator atoms excluded) of the terms, without repetition.
pub fn subterms(ts: &[T]) -> Vec<T> {
    fn go(t: &T, out: &mut Vec<T>, seen: &mut std::collections::HashSet<T>) {
        if seen.insert(t.clone()) {
            if let T::L(xs) = t {
                for x in &xs[1..] {
                    go(x, out, seen);
                }
            }
            out.push(t.clone());
        }
    }
    let mut out = vec![];
    let mut seen = Default::default();
    for t in ts {
        go(t, &mut out, &mut seen);
    }
    out
}

/// Reference for the saturating strategy.
pub fn run_saturating<L: SynthLanguage>(e: EG<L>, rules: &[(T, T)], iters: usize, nodes: usize) -> (EG<L>, bool) {
    let (sat, other): (Vec<(T, T)>, Vec<(T, T)>) = rules.iter().cloned().partition(|(l, r)| saturating(l, r));
    let (sat, other) = (rewrites::<L>(&sat), rewrites::<L>(&other));
    let mut e = e;
    for _ in 0..iters {
        let (e1, end) = run(e, &sat, 100_000, nodes);
        if !matches!(end, End::Saturated) {
            return (e1, false);
        }
        let (e2, end) = run(e1, &other, 1, nodes);
        e = e2;
        if matches!(end, End::TooBig) {
            return (e, false);
        }
    }
    let (e, end) = run(e, &sat, 100_000, nodes);
    let ok = matches!(end, End::Saturated);
    (e, ok)
}

/// Applying the rule can add no class: every proper subterm of the right side occurs on the left.
pub fn saturating(l: &T, r: &T) -> bool {
    let have = subterms(std::slice::from_ref(l));
    match r {
        T::A(_) => have.contains(r) || true,
        T::L(xs) => xs[1..].iter().all(|x| subterms(std::slice::from_ref(x)).iter().all(|s| have.contains(s))),
    }
}

// ------------------------------------------------------------------ value-aware reference

/// Independent value analysis: the pointwise values of a class over all rows.
#[derive(Clone)]
pub struct Vals {
    pub al: &'static tb::Alg,
    pub vars: Vec<String>,
    pub rows: Vec<Vec<u8>>,
}
impl Default for Vals {
    fn default() -> Self {
        Vals { al: tb::alg(), vars: vec![], rows: vec![] }
    }
}
impl Vals {
    pub fn new(al: &'static tb::Alg, vars: Vec<String>, vals: &[u8]) -> Self {
        let mut rows: Vec<Vec<u8>> = vec![vec![]];
        for _ in &vars {
            let mut next = vec![];
            for r in &rows {
                for v in vals {
                    let mut r = r.clone();
                    r.push(*v);
                    next.push(r);
                }
            }
            rows = next;
        }
        Vals { al, vars, rows }
    }
}
impl egg::Analysis<tb::Tb> for Vals {
    type Data = Vec<Option<u8>>;
    fn make(eg: &EGraph<tb::Tb, Self>, n: &tb::Tb) -> Self::Data {
        let al = eg.analysis.al;
        (0..eg.analysis.rows.len())
            .map(|i| {
                let d = |id: &Id| eg[*id].data[i];
                match n {
                    tb::Tb::Num(v) => Some(v.0 % al.k),
                    tb::Tb::Var(s) => {
                        let p = eg.analysis.vars.iter().position(|v| v == &s.to_string()).expect("known variable");
                        Some(eg.analysis.rows[i][p])
                    }
                    tb::Tb::Un(o, [a]) => al.un(*o as usize, d(a)?),
                    tb::Tb::Bi(o, [a, b]) => al.bi(*o as usize, d(a)?, d(b)?),
                    tb::Tb::Te([a, b, c]) => al.te(d(a)?, d(b)?, d(c)?),
                }
            })
            .collect()
    }
    fn merge(&mut self, a: &mut Self::Data, b: Self::Data) -> egg::DidMerge {
        let (mut ca, mut cb) = (false, false);
        for (x, y) in a.iter_mut().zip(b) {
            match (*x, y) {
                (None, Some(_)) => {
                    *x = y;
                    ca = true;
                }
                (Some(_), None) => cb = true,
                _ => {}
            }
        }
        egg::DidMerge(ca, cb)
    }
}
struct Guarded {
    rhs: egg::Pattern<tb::Tb>,
}
impl egg::Applier<tb::Tb, Vals> for Guarded {
    fn apply_one(
        &self,
        eg: &mut EGraph<tb::Tb, Vals>,
        id: Id,
        s: &egg::Subst,
        ast: Option<&egg::PatternAst<tb::Tb>>,
        name: egg::Symbol,
    ) -> Vec<Id> {
        let _ = (ast, name);
        if eg[id].data.iter().all(|v| v.is_none()) {
            return vec![];
        }
        let nodes = self.rhs.ast.as_ref();
        let mut ids: Vec<Id> = vec![];
        for n in nodes {
            use egg::Language;
            let i = match n {
                egg::ENodeOrVar::Var(v) => s[*v],
                egg::ENodeOrVar::ENode(n) => {
                    let n = n.clone().map_children(|c| ids[usize::from(c)]);
                    eg.add(n)
                }
            };
            ids.push(i);
        }
        let new = *ids.last().unwrap();
        if eg[new].data.iter().all(|v| v.is_none()) {
            return vec![];
        }
        if eg.union(id, new) {
            vec![new]
        } else {
            vec![]
        }
    }
}
/// Saturation in which classes without any defined value take part in no merge.
pub fn run_guarded(ts: &[T], v: Vals, rules: &[(T, T)], iters: usize, nodes: usize) -> (EGraph<tb::Tb, Vals>, End) {
    let mut e = EGraph::<tb::Tb, Vals>::new(v);
    for t in ts {
        e.add_expr(&tb::expr::<tb::Tb>(t));
    }
    e.rebuild();
    let rws: Vec<Rewrite<tb::Tb, Vals>> = rules
        .iter()
        .enumerate()
        .map(|(i, (l, r))| {
            Rewrite::new(format!("r{}", i), tb::pattern::<tb::Tb>(&tb::to_pat(l)), Guarded { rhs: tb::pattern(&tb::to_pat(r)) })
                .unwrap()
        })
        .collect();
    let mut r = Runner::<tb::Tb, Vals>::new(Vals::default())
        .with_scheduler(SimpleScheduler)
        .with_iter_limit(iters)
        .with_node_limit(nodes)
        .with_time_limit(Duration::from_secs(100_000))
        .with_egraph(e)
        .run(&rws);
    r.egraph.rebuild();
    let end = match r.stop_reason.unwrap() {
        egg::StopReason::Saturated => End::Saturated,
        egg::StopReason::IterationLimit(_) => End::Iters,
        _ => End::TooBig,
    };
    (r.egraph, end)
}

// ------------------------------------------------------------------ helpers on the real side

pub fn real_egraph<L: SynthLanguage>(ts: &[T]) -> EGraph<L, ruler::SynthAnalysis> {
    ruler::enumo::Workload::Set(ts.iter().map(|t| t.to_sexp()).collect()).to_egraph::<L>()
}
pub fn real_find<L: SynthLanguage>(e: &EGraph<L, ruler::SynthAnalysis>, t: &T) -> Option<Id> {
    let x: RecExpr<L> = tb::expr(t);
    e.lookup_expr(&x).map(|i| e.find(i))
}
pub fn show_partition(ts: &[T], p: &[Vec<usize>]) -> String {
    p.iter()
        .filter(|b| b.len() > 1)
        .map(|b| b.iter().map(|i| ts[*i].to_string()).collect::<Vec<_>>().join(" = "))
        .collect::<Vec<_>>()
        .join(" | ")
}
pub fn limits(iter: usize, node: usize, match_: usize) -> ruler::Limits {
    ruler::Limits { iter, node, match_ }
}
pub const BIG: usize = 1_000_000_000;
