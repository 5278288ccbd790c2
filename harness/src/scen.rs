//! Shared scenarios: terms that rules apply to, e-graphs with given merges, limits and strategies.
use crate::engine::G;
use crate::oracle::*;
use crate::sx::*;
use crate::tb::*;
use ruler::enumo::Scheduler;
use ruler::{EGraph, Limits, SynthAnalysis, SynthLanguage};
use std::collections::BTreeMap;

/// An algebra without values (the free case).
pub fn blank(k: u8) -> Alg {
    let kk = k as usize;
    Alg {
        k,
        un: vec![vec![Some(0); kk]; UN.len()],
        bi: vec![vec![Some(0); kk * kk]; BI.len()],
        te: vec![Some(0); kk * kk * kk],
        samples: vec![],
        ..Alg::default()
    }
}

/// Terms to rewrite: many are instances of the rules' sides, possibly in a context.
pub fn instances(g: &mut G, rules: &[(T, T)], k: u8, max: usize) -> Vec<T> {
    let vars = &VARS[..if g.chance(6) { g.size(3, 5) } else { 2 }];
    let n = match g.below(200) {
        199 => g.size(40, 120),
        x if x >= 191 => g.size(max, 4 * max),
        _ => g.size(1, max),
    };
    let mut ts = vec![];
    for _ in 0..n {
        if !rules.is_empty() && g.chance(60) {
            let (l, r) = g.pick(rules).clone();
            let side = if g.chance(75) { l } else { r };
            let mut m = BTreeMap::new();
            for v in vars_of(&[&side]) {
                m.insert(v, gen_term(g, vars, k, 1));
            }
            let t = subst(&side, &m);
            ts.push(if g.bool() { t } else { context(g, t, k) });
        } else {
            ts.push(gen_term(g, vars, k, 2));
        }
    }
    ts
}
/// No instance of the right side is larger than that of the left side, so that many iterations are
/// harmless (the e-graph analysis keeps a term for every class, and terms can double in each round).
pub fn not_growing(l: &T, r: &T) -> bool {
    let (mut a, mut b) = (vec![], vec![]);
    l.leaves(&mut a);
    r.leaves(&mut b);
    let count = |v: &[&str], x: &str| v.iter().filter(|y| **y == x).count();
    b.len() <= a.len() && b.iter().filter(|x| VARS.contains(*x)).all(|x| count(&b, x) <= count(&a, x))
}
/// Rules that collapse a deep term from the inside, one level per round, and such a term.
pub fn cascade(g: &mut G) -> (Vec<(T, T)>, T) {
    let (x, y) = (a(VARS[0]), a(VARS[1]));
    let qx = l("q", vec![x.clone()]);
    let n = if g.bool() { g.size(3, 12) } else { g.size(13, 80) };
    if g.bool() {
        // two towers that lose one level each per round: nothing but the rule can merge the levels
        let (z, w) = (a(VARS[1]), if g.bool() { a(VARS[0]) } else { l("q", vec![a(VARS[1])]) });
        let tower = |n: usize, base: &T| (0..n).fold(base.clone(), |t, _| l("p", vec![t]));
        let (lhs, m) = if g.bool() { (l("&", vec![l("p", vec![x.clone()]), l("p", vec![y.clone()])]), n) } else { (l("&", vec![l("p", vec![x.clone()]), y.clone()]), 0) };
        let t = l("&", vec![tower(n, &z), tower(m, &w)]);
        let end = l("&", vec![z, w]);
        g.label("towers");
        let t = if g.bool() { l("+", vec![t, end]) } else { l("+", vec![end, t]) };
        return (vec![(lhs, l("&", vec![x, y]))], t);
    }
    let kinds: Vec<u64> = (0..g.size(1, 2)).map(|_| g.below(4)).collect();
    let mut rules = vec![];
    for k in &kinds {
        let side = match k {
            0 => l("p", vec![qx.clone()]),
            1 => l("+", vec![y.clone(), qx.clone()]),
            2 => l("&", vec![qx.clone(), x.clone()]),
            _ => l("p", vec![l("p", vec![qx.clone()])]),
        };
        rules.push((side, qx.clone()));
    }
    let mut t = qx;
    for _ in 0..n {
        t = match *g.pick(&kinds) {
            0 => l("p", vec![t]),
            1 => l("+", vec![a(*g.pick(&VARS[..2])), t]),
            2 => l("&", vec![t, x.clone()]),
            _ => l("p", vec![l("p", vec![t])]),
        };
    }
    g.label("deep cascade");
    (dedup_rules(rules), t)
}
/// Rules and a goal that takes an exact number of single rounds, by many matches or in a large e-graph:
/// rungs of ladders are exchanged one per round. At most 1000 matches of a rule in each of five rounds.
pub fn ladders(g: &mut G) -> (Vec<(T, T)>, T, T) {
    let (x, y) = (a(VARS[0]), a(VARS[1]));
    let n = g.size(1, 7);
    let m = *g.pick(&[1usize, 1, 2, 5, 20, 60, 120]);
    let tower = |o: &str, n: usize, base: &T| (0..n).fold(base.clone(), |t, _| l(o, vec![t]));
    let base = |i: usize| (0..i).fold(y.clone(), |t, _| l("+", vec![x.clone(), t]));
    let comb = |ts: Vec<T>| ts.into_iter().reduce(|acc, t| l(TE, vec![t, x.clone(), acc])).unwrap();
    let pair = |i: usize| (base(i % 12), base(i / 12));
    let mut rules = vec![(l("&", vec![l("p", vec![x.clone()]), y.clone()]), l("&", vec![x.clone(), l("q", vec![y.clone()])]))];
    if g.chance(30) {
        let (u, v) = rules[0].clone();
        rules.push((v, u));
    }
    let mut left: Vec<T> = (0..m).map(|i| l("&", vec![tower("p", n, &pair(i).0), pair(i).1])).collect();
    let mut right: Vec<T> = (0..m).map(|i| l("&", vec![pair(i).0, tower("q", n, &pair(i).1)])).collect();
    if g.chance(40) {
        // unrelated growth
        let st = l("*", vec![x.clone(), y.clone()]);
        rules.push((st.clone(), l("*", vec![l("p", vec![x.clone()]), y.clone()])));
        rules.push((st, l("*", vec![x.clone(), l("p", vec![y.clone()])])));
        let k = *g.pick(&[1usize, 5, 20, 50]);
        for i in 0..k {
            let t = l("*", vec![pair(i).0, pair(i).1]);
            left.insert(0, t.clone());
            right.insert(0, t);
        }
        g.label("much growth beside the goal");
    }
    g.shuffle(&mut rules);
    g.label("exact number of rounds");
    (rules, comb(left), comb(right))
}
pub fn context(g: &mut G, t: T, k: u8) -> T {
    if g.bool() {
        l(*g.pick(UN), vec![t])
    } else {
        let u = gen_term(g, &VARS[..2], k, 1);
        l(*g.pick(BI), vec![t, u])
    }
}

pub fn strategy(g: &mut G, l: Limits) -> Scheduler {
    match g.weighted(&[3, 3, 2]) {
        0 => Scheduler::Simple(l),
        1 => Scheduler::Saturating(l),
        _ => Scheduler::Compress(l),
    }
}
pub fn strategy_name(s: &Scheduler) -> &'static str {
    match s {
        Scheduler::Simple(_) => "simple",
        Scheduler::Saturating(_) => "saturating",
        Scheduler::Compress(_) => "compress",
    }
}

pub type Real = EGraph<Tb, SynthAnalysis>;

/// The e-graph of the terms with some pairs merged beforehand.
pub fn real_with(ts: &[T], unions: &[(T, T)]) -> Real {
    let mut e = real_egraph::<Tb>(ts);
    let ids: Vec<_> = unions.iter().map(|(a, b)| (real_find(&e, a).unwrap(), real_find(&e, b).unwrap())).collect();
    for (a, b) in ids {
        e.union(a, b);
    }
    e.rebuild();
    e
}
pub fn trusted_with(ts: &[T], unions: &[(T, T)]) -> EG<Tb> {
    let mut e = egraph::<Tb>(ts);
    let ids: Vec<_> = unions.iter().map(|(a, b)| (find(&e, a).unwrap(), find(&e, b).unwrap())).collect();
    for (a, b) in ids {
        e.union(a, b);
    }
    e.rebuild();
    e
}
/// Everything observable about an e-graph, to detect changes.
pub fn digest<L: SynthLanguage>(e: &EGraph<L, SynthAnalysis>) -> String {
    let mut cs: Vec<String> = e
        .classes()
        .map(|c| {
            let mut ns: Vec<String> = c.nodes.iter().map(|n| format!("{:?}", n)).collect();
            ns.sort();
            format!("{}: {:?} {:?}", c.id, ns, c.data.cvec)
        })
        .collect();
    cs.sort();
    format!("{} nodes\n{}", e.total_size(), cs.join("\n"))
}
pub fn show_unions(us: &[(T, T)]) -> String {
    us.iter().map(|(a, b)| format!("{} = {}", a, b)).collect::<Vec<_>>().join(", ")
}

/// The function each class denotes (over all values of the algebra), or two nodes of one class
/// that denote different ones.
pub fn denotations(e: &Real, al: &Alg, vars: &[String]) -> Result<BTreeMap<egg::Id, Vec<Option<u8>>>, String> {
    use egg::Language;
    let vals = al.all_vals();
    let mut den: BTreeMap<egg::Id, Vec<Option<u8>>> = BTreeMap::new();
    let rows = vals.len().pow(vars.len() as u32);
    let node = |n: &Tb, den: &BTreeMap<egg::Id, Vec<Option<u8>>>| -> Option<Vec<Option<u8>>> {
        let ch: Option<Vec<&Vec<Option<u8>>>> = n.children().iter().map(|c| den.get(&e.find(*c))).collect();
        let ch = ch?;
        Some(match n {
            Tb::Num(v) => vec![Some(v.0 % al.k); rows],
            Tb::Var(s) => al.table(&T::A(s.to_string()), vars, &vals),
            _ => (0..rows)
                .map(|i| {
                    let a: Option<Vec<u8>> = ch.iter().map(|c| c[i]).collect();
                    let a = a?;
                    match n {
                        Tb::Un(o, _) => al.un(*o as usize, a[0]),
                        Tb::Bi(o, _) => al.bi(*o as usize, a[0], a[1]),
                        _ => al.te(a[0], a[1], a[2]),
                    }
                })
                .collect(),
        })
    };
    loop {
        let before = den.len();
        for c in e.classes() {
            if den.contains_key(&c.id) {
                continue;
            }
            for n in &c.nodes {
                if let Some(d) = node(n, &den) {
                    den.insert(c.id, d);
                    break;
                }
            }
        }
        if den.len() == before {
            break;
        }
    }
    for c in e.classes() {
        let d = match den.get(&c.id) {
            Some(d) => d,
            None => return Err(format!("class {} has no finite term", c.id)),
        };
        for n in &c.nodes {
            if let Some(d2) = node(n, &den) {
                if d2 != *d {
                    return Err(format!("class {} contains nodes with different values: {:?}: {:?} and {:?}", c.id, n, d2, d));
                }
            }
        }
    }
    Ok(den)
}

/// The rule with its variables renamed by first occurrence: equal exactly for rules that differ in
/// variable names only. Sides are given with or without question marks.
pub fn alpha(l: &T, r: &T) -> (T, T) {
    fn go(t: &T, m: &mut BTreeMap<String, String>) -> T {
        match t {
            T::A(s) => {
                if s.parse::<u8>().is_ok() {
                    return t.clone();
                }
                let s = s.strip_prefix('?').unwrap_or(s).to_string();
                let n = m.len();
                T::A(m.entry(s).or_insert_with(|| format!("?v{}", n)).clone())
            }
            T::L(xs) => {
                let mut v = vec![xs[0].clone()];
                for x in &xs[1..] {
                    v.push(go(x, m));
                }
                T::L(v)
            }
        }
    }
    let mut m = BTreeMap::new();
    let l = go(l, &mut m);
    let r = go(r, &mut m);
    (l, r)
}
pub fn alpha_rule(r: &ruler::enumo::Rule<Tb>) -> (T, T) {
    alpha(&pat_t(&r.lhs), &pat_t(&r.rhs))
}

/// All smallest terms of every class that use accepted nodes only; None when a class has more than `cap`.
pub fn smallest(e: &Real, ok: &dyn Fn(&Tb) -> bool, cap: usize) -> Option<BTreeMap<egg::Id, Vec<T>>> {
    use egg::Language;
    let mut cost: BTreeMap<egg::Id, usize> = BTreeMap::new();
    let node_cost = |n: &Tb, cost: &BTreeMap<egg::Id, usize>| -> Option<usize> {
        if !ok(n) {
            return None;
        }
        let mut c = 1;
        for i in n.children() {
            c += cost.get(&e.find(*i))?;
        }
        Some(c)
    };
    loop {
        let mut changed = false;
        for c in e.classes() {
            for n in &c.nodes {
                if let Some(k) = node_cost(n, &cost) {
                    if cost.get(&c.id).map_or(true, |o| k < *o) {
                        cost.insert(c.id, k);
                        changed = true;
                    }
                }
            }
        }
        if !changed {
            break;
        }
    }
    let mut order: Vec<egg::Id> = cost.keys().copied().collect();
    order.sort_by_key(|i| cost[i]);
    let mut out: BTreeMap<egg::Id, Vec<T>> = BTreeMap::new();
    for id in order {
        let mut ts: Vec<T> = vec![];
        for n in &e[id].nodes {
            if node_cost(n, &cost) != Some(cost[&id]) {
                continue;
            }
            let mut partial: Vec<Vec<T>> = vec![vec![]];
            for c in n.children() {
                let opts = &out[&e.find(*c)];
                let mut next = vec![];
                for p in &partial {
                    for o in opts {
                        let mut p = p.clone();
                        p.push(o.clone());
                        next.push(p);
                    }
                }
                if next.len() > cap {
                    return None;
                }
                partial = next;
            }
            for p in partial {
                let t = if p.is_empty() { T::A(n.to_string()) } else { l(&n.to_string(), p) };
                if !ts.contains(&t) {
                    ts.push(t);
                }
            }
        }
        if ts.len() > cap {
            return None;
        }
        out.insert(id, ts);
    }
    Some(out)
}

/// Candidates expected for the given pairs of classes: every listed rule must come from some pair
/// of smallest terms, and every pair of classes must be covered by one such pair, in every
/// direction that can be written.
pub fn check_candidates(
    got: &ruler::enumo::Ruleset<Tb>,
    pairs: &[(egg::Id, egg::Id)],
    terms: &BTreeMap<egg::Id, Vec<T>>,
) -> Result<usize, String> {
    use std::collections::BTreeSet;
    let have: BTreeMap<(T, T), String> = got.iter().map(|r| (alpha_rule(r), r.name.to_string())).collect();
    let mut allowed: BTreeSet<(T, T)> = BTreeSet::new();
    let mut writable = 0;
    for (x, y) in pairs {
        let mut covered = false;
        let mut example = String::new();
        for t in &terms[x] {
            for u in &terms[y] {
                let (vt, vu) = (vars_of(&[t]), vars_of(&[u]));
                let mut all = true;
                for (p, q, ok) in [(t, u, vu.iter().all(|v| vt.contains(v))), (u, t, vt.iter().all(|v| vu.contains(v)))] {
                    if ok {
                        let k = alpha(p, q);
                        all &= have.contains_key(&k);
                        allowed.insert(k);
                        writable += 1;
                    }
                }
                covered |= all;
                example = format!("{} and {}", t, u);
            }
        }
        if !covered {
            return Err(format!("{} should be proposed (as far as a rule can be written)", example));
        }
    }
    for (k, name) in &have {
        if !allowed.contains(k) {
            return Err(format!("{} should not be proposed", name));
        }
    }
    // the text keeps to the form of a rule
    for r in got.iter() {
        if r.name.to_string() != format!("{} ==> {}", r.lhs, r.rhs) {
            return Err(format!("{} is not the text of its rule", r.name));
        }
    }
    Ok(writable)
}

/// Reference score of a rule (plain or question-mark variables): more variables, then fewer
/// constants (different ones of each side), then smaller larger side, then smaller total size, then fewer distinct operators.
pub fn ref_score(l: &T, r: &T) -> [i64; 5] {
    fn size(t: &T) -> i64 {
        match t {
            T::A(_) => 1,
            T::L(xs) => 1 + xs[1..].iter().map(size).sum::<i64>(),
        }
    }
    // different constants of one side
    fn consts(t: &T) -> i64 {
        let mut leaves = vec![];
        t.leaves(&mut leaves);
        let mut c: Vec<u8> = leaves.iter().filter_map(|s| s.parse().ok()).collect();
        c.sort();
        c.dedup();
        c.len() as i64
    }
    fn ops(t: &T, out: &mut std::collections::BTreeSet<String>) {
        if let T::L(xs) = t {
            out.insert(xs[0].to_string());
            xs[1..].iter().for_each(|x| ops(x, out));
        }
    }
    let mut o = Default::default();
    ops(l, &mut o);
    ops(r, &mut o);
    let (a, b) = (size(l), size(r));
    [vars_of(&[l, r]).len() as i64, -(consts(l) + consts(r)), -a.max(b), -(a + b), -(o.len() as i64)]
}

/// Candidates and prior rules for minimization.
pub struct MinCase {
    pub al: &'static Alg,
    pub cands: Vec<(T, T)>,
    pub prior: Vec<(T, T)>,
}
pub fn min_case(g: &mut G, max: usize, validators: bool) -> MinCase {
    let mut al = gen_alg(g, 3, validators);
    al.samples = vec![];
    if validators {
        al.validity = match g.below(6) {
            0 => Validity::Always,
            1 => Validity::UnknownSome(g.size(2, 4) as u64),
            2 => Validity::Directed,
            _ => Validity::Exact,
        };
    }
    let al = set_alg(al);
    let mut cands = vec![];
    for (l, r) in gen_valid_rules(g, al, max) {
        if vars_of(&[&l]).len() == vars_of(&[&r]).len() && g.chance(60) {
            cands.push((r.clone(), l.clone()));
        }
        if g.chance(85) {
            cands.push((l, r));
        }
    }
    if g.chance(60) {
        for (l, r) in gen_any_rules(g, al.k, 3) {
            if vars_of(&[&l]).len() == vars_of(&[&r]).len() && g.bool() {
                cands.push((r.clone(), l.clone()));
            }
            cands.push((l, r));
        }
    }
    let mut prior = vec![];
    if g.chance(60) {
        prior = gen_valid_rules(g, al, 3);
        if !cands.is_empty() && g.chance(40) {
            prior.push(g.pick(&cands).clone());
        }
    }
    let mut cands = dedup_rules(cands);
    g.shuffle(&mut cands);
    MinCase { al, cands, prior: dedup_rules(prior) }
}
pub fn rule_pair(r: &ruler::enumo::Rule<Tb>) -> (T, T) {
    (strip(&pat_t(&r.lhs)), strip(&pat_t(&r.rhs)))
}
pub fn accepted(l: &T, r: &T) -> bool {
    matches!(validate_t(&to_pat(l), &to_pat(r)), ruler::ValidationResult::Valid)
}

/// Can a rule be written between the terms in at least one direction?
pub fn comparable(x: &T, y: &T) -> bool {
    let (p, q) = (vars_of(&[x]), vars_of(&[y]));
    p.iter().all(|v| q.contains(v)) || q.iter().all(|v| p.contains(v))
}

/// The rules that can be written between two equal terms, as the terms that stand for their sides.
pub fn sides(ts: &[T], equal: &[(usize, usize)]) -> Vec<(usize, usize, T, T)> {
    let mut out = vec![];
    for (i, j) in equal {
        for (x, y) in [(i, j), (j, i)] {
            let m = &mut ruler::HashMap::default();
            let p = Tb::generalize(&expr::<Tb>(&ts[*x]), m);
            let q = Tb::generalize(&expr::<Tb>(&ts[*y]), m);
            out.push((*x, *y, expr_t(&Tb::instantiate(&p)), expr_t(&Tb::instantiate(&q))));
        }
    }
    out
}

/// Does every judged equality between the terms follow from the rules? Decided by plain egg over the
/// terms, the sides of all rules between equal terms and the extra terms; a pair counts when it is
/// merged as it stands or as a rule, or by a chain of such steps. Ok(None): too large to decide.
pub fn explain(
    ts: &[T],
    equal: &[(usize, usize)],
    judged: &[(usize, usize)],
    extra: &[T],
    rules: &[(T, T)],
) -> Result<Option<usize>, String> {
    let mut all = ts.to_vec();
    let cands = sides(ts, equal);
    for (_, _, p, q) in &cands {
        all.push(p.clone());
        all.push(q.clone());
    }
    all.extend(extra.iter().cloned());
    let rw = rewrites::<Tb>(rules);
    let mut e = egraph::<Tb>(&all);
    let mut rounds = 0;
    loop {
        let mut block: Vec<usize> = (0..ts.len()).collect();
        let join = |x: usize, y: usize, block: &mut Vec<usize>| {
            let (p, q) = (block[x], block[y]);
            block.iter_mut().for_each(|b| {
                if *b == q {
                    *b = p
                }
            });
        };
        for x in 0..ts.len() {
            for y in x + 1..ts.len() {
                if find(&e, &ts[x]) == find(&e, &ts[y]) {
                    join(x, y, &mut block);
                }
            }
        }
        for (x, y, p, q) in &cands {
            if find(&e, p) == find(&e, q) {
                join(*x, *y, &mut block);
            }
        }
        let (i, j) = match judged.iter().find(|(i, j)| block[*i] != block[*j]) {
            None => return Ok(Some(judged.len())),
            Some(x) => *x,
        };
        let (e1, end) = run(e, &rw, 1, 30_000);
        e = e1;
        rounds += 1;
        match end {
            End::TooBig => return Ok(None),
            End::Iters if rounds < 8 => {}
            _ => return Err(format!("{} and {} are equal but this does not follow", ts[i], ts[j])),
        }
    }
}

/// A goal that often follows from the rules: two terms reached from one another, an instance, a
/// rule read backwards, the rule itself, or anything.
pub fn goal(g: &mut G, rules: &[(T, T)]) -> Option<(T, T)> {
    let vars = &VARS[..2];
    let (l, r) = match if rules.is_empty() { 4 } else { g.weighted(&[5, 3, 2, 2, 2]) } {
        0 => {
            // walk
            let start = instances(g, rules, 3, 1).pop().unwrap();
            let far = g.chance(6);
            let n = if far { g.size(3, 5) } else { g.size(1, 3) };
            let rw = rewrites::<Tb>(rules);
            let (e, end) = run(egraph::<Tb>(&[start.clone()]), &rw, n, if far { 3000 } else { 400 });
            if matches!(end, End::TooBig) {
                return None;
            }
            let id = find(&e, &start)?;
            let ex = egg::Extractor::new(&e, egg::AstSize);
            let mut best = expr_t(&ex.find_best(id).1);
            if g.bool() {
                // some other node of the class
                let ns = &e[id].nodes;
                let n = g.pick(ns).clone();
                use egg::Language;
                let x = n.join_recexprs(|c| ex.find_best(c).1);
                best = expr_t(&x);
            }
            if best.atoms() > 14 {
                return None;
            }
            if g.chance(25) {
                (best, start)
            } else {
                (start, best)
            }
        }
        1 => {
            let (l, r) = g.pick(rules).clone();
            let mut m = BTreeMap::new();
            for v in vars_of(&[&l]) {
                m.insert(v, gen_term(g, vars, 3, 1));
            }
            let (l, r) = (subst(&l, &m), subst(&r, &m));
            if g.bool() {
                (ls(l.clone()), ls(r))
            } else {
                (l, r)
            }
        }
        2 => {
            let (l, r) = g.pick(rules).clone();
            (r, l)
        }
        3 => g.pick(rules).clone(),
        _ => (gen_term(g, vars, 3, 2), gen_term(g, vars, 3, 2)),
    };
    Some((l, r)).filter(|(l, r)| vars_of(&[r]).iter().all(|v| vars_of(&[l]).contains(v)))
}
fn ls(t: T) -> T {
    l("p", vec![t])
}
/// The answer by definition; None when the search is too large.
pub fn answer(rules: &[(T, T)], l: &T, r: &T, both: bool, iters: usize) -> Option<bool> {
    answer_size(rules, l, r, both, iters).map(|x| x.0)
}
/// The answer and the size the e-graph reaches.
pub fn answer_size(rules: &[(T, T)], l: &T, r: &T, both: bool, iters: usize) -> Option<(bool, usize)> {
    let mut ts = vec![l.clone()];
    if both {
        ts.push(r.clone());
    }
    let (e, ok) = run_saturating(egraph::<Tb>(&ts), rules, iters, 3000);
    ok.then(|| {
        let (a, b) = (find(&e, l), find(&e, r));
        (a.is_some() && a == b, e.total_size())
    })
}

// ---------------------------------------------------------------- fast-forwarding

pub const ALL: [&str; 6] = ["p", "q", "+", "*", "&", "if"];
pub fn arity(o: &str) -> usize {
    if UN.contains(&o) {
        1
    } else if o == TE {
        3
    } else {
        2
    }
}
/// A term over the given operators only.
pub fn over(g: &mut G, ops: &[&str], vars: &[&str], depth: usize) -> T {
    if depth == 0 || ops.is_empty() || g.chance(25) {
        return a(*g.pick(vars));
    }
    let o = *g.pick(ops);
    l(o, (0..arity(o)).map(|_| over(g, ops, vars, depth - 1)).collect())
}

pub struct FfCase {
    pub hidden: Vec<&'static str>,
    pub ts: Vec<T>,
    pub prior: Vec<(T, T)>,
    pub expl: Vec<(T, T)>,
    pub pl: ruler::Limits,
    pub ml: ruler::Limits,
}

pub fn ff_case(g: &mut G, translations_only: bool) -> FfCase {
    let mut ops = ALL.to_vec();
    g.shuffle(&mut ops);
    let nh = g.size(1, 3);
    let hidden: Vec<&'static str> = ops[..nh].to_vec();
    let shown: Vec<&'static str> = ops[nh..].to_vec();
    // exploratory rules: operators are explained by hidden terms, often by the same ones
    let mut meanings = vec![];
    for _ in 0..g.size(1, 2) {
        let o = *g.pick(&hidden);
        meanings.push(l(o, (0..arity(o)).map(|i| if i < 2 && g.chance(80) { a(VARS[i]) } else { over(g, &hidden, &VARS[..2], 1) }).collect()));
    }
    let mut expl = vec![];
    for _ in 0..if g.chance(5) { g.size(4, 9) } else { g.size(1, 4) } {
        let lhs = match g.below(4) {
            0 => over(g, &ALL, &VARS[..2], 2),
            1 if !meanings.is_empty() => g.pick(&meanings).clone(),
            _ => {
                let o = *g.pick(&shown);
                l(o, (0..arity(o)).map(|_| if g.chance(85) { a(*g.pick(&VARS[..2])) } else { over(g, &ALL, &VARS[..2], 1) }).collect())
            }
        };
        if matches!(lhs, T::A(_)) {
            continue;
        }
        let vs = vars_of(&[&lhs]);
        let mut m = BTreeMap::new();
        for v in &VARS[..3] {
            m.insert(v.to_string(), a(g.pick(&vs).as_str()));
        }
        let rhs = if g.chance(15) { a(g.pick(&vs).as_str()) } else { subst(g.pick(&meanings), &m) };
        if lhs == rhs {
            continue;
        }
        if !translations_only && g.chance(30) {
            let vr = vars_of(&[&rhs]);
            if vs.iter().all(|v| vr.contains(v)) && matches!(rhs, T::L(_)) {
                expl.push((rhs.clone(), lhs.clone()));
            }
        }
        expl.push((lhs, rhs));
    }
    let expl = dedup_rules(expl);
    let mut prior = vec![];
    if g.chance(60) {
        prior = gen_any_rules(g, 3, 2);
        if g.chance(30) && !expl.is_empty() {
            let (x, y) = g.pick(&expl).clone();
            if !translations_only || !vars_of(&[&x]).is_empty() {
                prior.push((x, y));
            }
        }
    }
    let prior = dedup_rules(prior);
    let mut ts = vec![];
    for _ in 0..if g.chance(5) { g.size(7, 16) } else { g.size(2, 7) } {
        let t = if g.chance(40) && !expl.is_empty() {
            let (x, _) = g.pick(&expl).clone();
            let mut m = BTreeMap::new();
            for v in vars_of(&[&x]) {
                m.insert(v, gen_term(g, &VARS[..2], 3, 1));
            }
            subst(&x, &m)
        } else if g.chance(60) {
            over(g, &shown, &VARS[..2], 2)
        } else {
            gen_term(g, &VARS[..2], 3, 2)
        };
        if t.atoms() < 14 && !ts.contains(&t) {
            ts.push(t);
        }
    }
    let (pl, ml) = (limits(g.size(1, 2), BIG, BIG), limits(g.size(0, 2), BIG, BIG));
    let mut al = blank(3);
    al.validity = Validity::Always;
    for (i, o) in ALL.iter().enumerate() {
        al.allowed[i] = !hidden.contains(o);
    }
    al.exploratory = expl.iter().map(|(x, y)| rule_text(x, y)).collect();
    set_alg(al);
    g.input(format!(
        "hidden {:?} | exploratory {} | prior {} | {} | limits {} {}",
        hidden,
        rules_text(&expl),
        rules_text(&prior),
        show(&ts),
        pl.iter,
        ml.iter
    ));
    FfCase { hidden, ts, prior, expl, pl, ml }
}
