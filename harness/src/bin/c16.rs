//! C16: rule inference finds sound rules that explain every equality of the workload.
use ruler::enumo::{Metric, Ruleset, Scheduler, Workload};
use ruler::recipe_utils::{recursive_rules, run_workload, Lang};
use ruler::Limits;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vharness::engine::*;
use vharness::oracle::{self, *};
use vharness::scen::*;
use vharness::sx::*;
use vharness::tb::{self, *};
use vharness::{ensure, fail};

/// The call reports "no rules" by a panic: that is the empty answer.
fn learned(f: impl FnOnce() -> Ruleset<Tb>) -> Result<Ruleset<Tb>, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
            if m.contains("Didn't learn any rules") {
                Ok(Ruleset::default())
            } else {
                Err(m)
            }
        }
    }
}

/// Ground facts about constants, which the domain's constant folding knows.
fn folding_rules(al: &Alg) -> Vec<(T, T)> {
    let n = |v: u8| T::A(v.to_string());
    let mut rs = vec![];
    for (i, o) in UN.iter().enumerate() {
        for x in 0..al.k {
            if let Some(v) = al.un(i, x) {
                rs.push((l(o, vec![n(x)]), n(v)));
            }
        }
    }
    for (i, o) in BI.iter().enumerate() {
        for x in 0..al.k {
            for y in 0..al.k {
                if let Some(v) = al.bi(i, x, y) {
                    rs.push((l(o, vec![n(x), n(y)]), n(v)));
                }
            }
        }
    }
    for x in 0..al.k {
        for y in 0..al.k {
            for z in 0..al.k {
                if let Some(v) = al.te(x, y, z) {
                    rs.push((l(TE, vec![n(x), n(y), n(z)]), n(v)));
                }
            }
        }
    }
    rs
}

/// Err: some equality between the terms does not follow from the rules. Ok(None): undecided.
fn complete(al: &Alg, ts: &[T], judged: &dyn Fn(&T) -> bool, rules: &[(T, T)], folding: bool) -> Result<Option<usize>, String> {
    let mut equal = vec![];
    for i in 0..ts.len() {
        for j in i + 1..ts.len() {
            if ts[i] != ts[j] && al.same(&ts[i], &ts[j]) && comparable(&ts[i], &ts[j]) {
                equal.push((i, j));
            }
        }
    }
    let mut rules = rules.to_vec();
    if folding {
        rules.extend(folding_rules(al));
    }
    let judged: Vec<(usize, usize)> = equal.iter().filter(|(i, _)| judged(&ts[*i])).copied().collect();
    explain(ts, &equal, &judged, &[], &rules)
}

/// A tree with the given number of leaves, all of them written `x`.
fn leaf_tree(g: &mut G, o: &str, n: usize) -> T {
    if n == 1 {
        return a("x");
    }
    let i = g.size(1, n - 1);
    let o2 = if g.chance(85) { o } else { *g.pick(BI) };
    l(o, vec![leaf_tree(g, o2, i), leaf_tree(g, o2, n - i)])
}
fn fill(t: &T, ls: &[&str], i: &mut usize) -> T {
    match t {
        T::A(_) => {
            *i += 1;
            a(ls[*i - 1])
        }
        T::L(xs) => {
            let mut v = vec![xs[0].clone()];
            v.extend(xs[1..].iter().map(|x| fill(x, ls, i)));
            T::L(v)
        }
    }
}

fn infer(g: &mut G) -> R {
    let exhaustive = g.chance(70);
    let partial = !exhaustive && g.bool();
    let mut al = gen_alg(g, 3, partial);
    if !exhaustive {
        let mut s = al.all_vals();
        g.shuffle(&mut s);
        s.truncate(g.size(1, s.len()));
        al.samples = s;
    }
    if al.total() {
        al.interval = if g.chance(25) { 1 } else { 0 };
    }
    let al = set_alg(al);
    let prior = if g.chance(60) { dedup_rules(gen_valid_rules(g, al, 3)) } else { vec![] };
    let nv = g.size(1, 2);
    let n = if g.chance(4) { g.size(10, 24) } else { g.size(2, 10) };
    let d = g.size(1, 2);
    let mut ts: Vec<T> = vec![];
    for _ in 0..n {
        let t = gen_term(g, &VARS[..nv], al.k, d);
        if !ts.contains(&t) {
            ts.push(t);
        }
    }
    if g.chance(25) {
        // the same leaves in different places: equal in commutative or associative algebras, often
        // without any of the smaller equalities being in the workload
        let n = g.size(3, 5);
        let leaves: Vec<&str> = VARS[..n].to_vec();
        let o = *g.pick(BI);
        let shape = leaf_tree(g, o, n);
        let mut many = vec![];
        for _ in 0..g.size(2, 3) {
            let mut ls = leaves.clone();
            g.shuffle(&mut ls);
            let s = if g.chance(70) { shape.clone() } else { leaf_tree(g, o, n) };
            let mut i = 0;
            let t = fill(&s, &ls, &mut i);
            if !many.contains(&t) {
                many.push(t);
            }
        }
        ts.truncate(3);
        ts.extend(many);
        g.label("several leaves permuted");
    }
    let fast = g.bool();
    let (pl, ml) = (limits(g.size(0, 2), BIG, BIG), limits(g.size(0, 2), BIG, BIG));
    g.input(format!(
        "{} | prior {} | {} | fast {} limits {} {}",
        al.describe(),
        rules_text(&prior),
        show(&ts),
        fast,
        pl.iter,
        ml.iter
    ));
    let subs = subterms(&ts);
    {
        let (_, end) = oracle::run(egraph::<Tb>(&ts), &rewrites(&prior), 2, 3000);
        if matches!(end, End::TooBig) {
            return Err(Stop::Discard);
        }
    }
    let wl = Workload::Set(ts.iter().map(|t| t.to_sexp()).collect());
    let got = match learned(|| run_workload::<Tb>(wl, ruleset(&prior), pl, ml, fast)) {
        Ok(r) => r,
        Err(m) => fail!("inference panicked: {}", m),
    };
    let rules: Vec<(T, T)> = got.iter().map(rule_pair).collect();
    for (l, r) in &rules {
        ensure!(al.same(l, r), "{} was inferred but is false", rule_text(l, r));
        ensure!(!prior.contains(&(l.clone(), r.clone())), "{} was inferred but is a prior rule", rule_text(l, r));
    }
    let again = redundant(&rules, &prior, ml.iter);
    ensure!(again.len() <= 2, "already implied by the prior rules, but inferred: {}", again.join(", "));
    if al.total() {
        let again = reinferred(&[subs.clone()], &prior, pl.iter, &rules);
        ensure!(again.is_empty(), "merged by the prior rules, but inferred: {}", again.join(", "));
    }
    g.nontrivial_if(rules.len() > 1);
    g.label_if(!prior.is_empty() && !rules.is_empty(), "prior rules and inferred rules");
    if !exhaustive {
        g.label("sampled or partial: soundness only");
        return Ok(());
    }
    let mut both = prior.clone();
    both.extend(rules.iter().cloned());
    match explained(al, &subs, &both, &prior, pl, al.interval > 0) {
        Ok(true) => g.label("complete"),
        Ok(false) => g.label("too large to decide"),
        Err(m) => fail!("{} from {}", m, rules_text(&both)),
    }
    Ok(())
}

/// As `complete`. A class is proposed by its smallest term; equal classes whose smallest terms (under
/// the prior rules) have unrelated variables cannot be related by a rule, so such pairs are left out.
fn explained(al: &Alg, ts: &[T], rules: &[(T, T)], prior: &[(T, T)], pl: Limits, folding: bool) -> Result<bool, String> {
    if prior.is_empty() && !folding {
        return complete(al, ts, &|_| true, rules, folding).map(|x| x.is_some());
    }
    let e = Scheduler::Compress(pl).run(&real_egraph::<Tb>(ts), &ruleset(prior));
    let small = match smallest(&e, &|_| true, 20) {
        Some(s) => s,
        None => return Ok(false),
    };
    // classes by value, all of whose members' variables are comparable with each other
    let vars = vars_of(&ts.iter().collect::<Vec<_>>());
    let vals = al.all_vals();
    let mut by: BTreeMap<Vec<Option<u8>>, Vec<T>> = BTreeMap::new();
    for t in ts {
        by.entry(al.table(t, &vars, &vals)).or_default().push(t.clone());
    }
    let mut keep = vec![];
    for (_, b) in by {
        let mut members = b.clone();
        for t in &b {
            if let Some(ts) = real_find(&e, t).and_then(|i| small.get(&i)) {
                members.extend(ts.iter().cloned());
            }
        }
        if b.len() == 1 || members.iter().all(|x| members.iter().all(|y| comparable(x, y))) {
            keep.extend(b);
        }
    }
    complete(al, ts, &|t| keep.contains(t), rules, folding).map(|x| x.is_some())
}

/// How many of the rules follow from the prior rules on their own terms in the given number of rounds.
/// Once a rule is picked, candidates that so follow are dropped, so at most the first pick and its
/// reverse can be among them.
fn redundant(rules: &[(T, T)], prior: &[(T, T)], iters: usize) -> Vec<String> {
    let rw = rewrites::<Tb>(prior);
    rules
        .iter()
        .filter(|r| !prior.contains(r))
        .filter(|(l, r)| {
            let (e, _) = oracle::run(egraph::<Tb>(&[l.clone(), r.clone()]), &rw, iters, 3000);
            oracle::find(&e, l) == oracle::find(&e, r)
        })
        .map(|(l, r)| rule_text(l, r))
        .collect()
}
/// Rules between terms that the prior rules merge anyway: in the e-graph of the workload, after the
/// rounds that the prior rules run for, every renaming of the rule that fits has both sides in one
/// class. None of them can have been proposed by matching, as that looks at pairs of classes.
fn reinferred(workloads: &[Vec<T>], prior: &[(T, T)], iters: usize, rules: &[(T, T)]) -> Vec<String> {
    let mut graphs = vec![];
    for ts in workloads {
        let (e, end) = oracle::run(egraph::<Tb>(ts), &rewrites(prior), iters, 3000);
        if matches!(end, End::TooBig) {
            return vec![];
        }
        graphs.push((e, vars_of(&ts.iter().collect::<Vec<_>>())));
    }
    fn maps(vs: &[String], to: &[String]) -> Vec<BTreeMap<String, T>> {
        match vs.split_first() {
            None => vec![BTreeMap::new()],
            Some((v, rest)) => to
                .iter()
                .flat_map(|t| {
                    let others: Vec<String> = to.iter().filter(|x| *x != t).cloned().collect();
                    maps(rest, &others).into_iter().map(move |mut m| {
                        m.insert(v.clone(), a(t));
                        m
                    })
                })
                .collect(),
        }
    }
    let mut out = vec![];
    for (l, r) in rules.iter().filter(|r| !prior.contains(r)) {
        let vs = vars_of(&[l, r]);
        let (mut seen, mut apart) = (false, false);
        for (e, vars) in &graphs {
            for m in maps(&vs, vars) {
                let (x, y) = (oracle::find(e, &subst(l, &m)), oracle::find(e, &subst(r, &m)));
                if x.is_some() && y.is_some() {
                    seen = true;
                    apart |= x != y;
                }
            }
        }
        if seen && !apart {
            out.push(rule_text(l, r));
        }
    }
    out
}
/// The rules with other variable names.
fn renamed(rules: &[(T, T)]) -> Vec<(T, T)> {
    let m: BTreeMap<String, T> = VARS.iter().map(|v| v.to_string()).chain(["a", "b", "c", "d", "e", "f"].iter().map(|v| v.to_string())).map(|v| (v.clone(), a(&format!("{}1", v)))).collect();
    rules.iter().map(|(l, r)| (subst(l, &m), subst(r, &m))).collect()
}

/// All terms of the language up to the bound that contain a variable.
fn enumerate(met: Metric, n: usize, vals: &[String], vars: &[String], ops: &[Vec<String>]) -> Vec<T> {
    let m = |t: &T| match met {
        Metric::Atoms => t.atoms(),
        Metric::Lists => t.lists(),
        Metric::Depth => t.depth(),
    };
    let atoms: Vec<T> = vals.iter().chain(vars).map(|s| a(s)).collect();
    let mut all: Vec<T> = atoms.iter().filter(|t| m(t) <= n).cloned().collect();
    loop {
        let before = all.len();
        let mut next = all.clone();
        let mut seen: std::collections::HashSet<T> = all.iter().cloned().collect();
        for (i, os) in ops.iter().enumerate() {
            let mut tuples: Vec<Vec<T>> = vec![vec![]];
            for _ in 0..=i {
                let mut t2 = vec![];
                for t in &tuples {
                    for x in &all {
                        let mut t = t.clone();
                        t.push(x.clone());
                        t2.push(t);
                    }
                }
                tuples = t2;
                if tuples.len() > 20_000 {
                    return vec![];
                }
            }
            for o in os {
                for t in &tuples {
                    let t = l(o, t.clone());
                    if m(&t) <= n && seen.insert(t.clone()) {
                        next.push(t);
                    }
                }
            }
        }
        all = next;
        if all.len() == before {
            break;
        }
    }
    all.retain(|t| !vars_of(&[t]).is_empty());
    all
}

fn recursive(g: &mut G) -> R {
    let al = set_alg(gen_alg(g, 3, false));
    let pick = |g: &mut G, xs: &[&str], lo: usize| -> Vec<String> {
        let mut v: Vec<String> = xs.iter().map(|s| s.to_string()).collect();
        g.shuffle(&mut v);
        v.truncate(g.size(lo, xs.len()));
        v
    };
    let vars = pick(g, &VARS[..2], 1);
    let vals = pick(g, &["0", "1"], 0);
    let arity = g.size(1, 3);
    let mut ops = vec![pick(g, UN, 0)];
    if arity >= 2 {
        let mut b = pick(g, BI, 0);
        b.truncate(2);
        ops.push(b);
    }
    if arity >= 3 {
        ops.push(pick(g, &[TE], 0));
    }
    let (met, n) = match g.weighted(&[4, 1, 1]) {
        0 => (Metric::Atoms, g.size(1, 4)),
        1 => (Metric::Lists, 1),
        _ => (Metric::Depth, g.size(1, 2)),
    };
    let ts = enumerate(met, n, &vals, &vars, &ops);
    if ts.is_empty() || ts.len() > 60 {
        return Err(Stop::Discard);
    }
    let prior = match g.below(20) {
        0..=9 => vec![],
        10..=15 => dedup_rules(gen_valid_rules(g, al, 2)),
        16 => dedup_rules(gen_valid_rules(g, al, 6)),
        _ => {
            // all there is to learn, under other variable names
            let lang = Lang { vals: vals.clone(), vars: vars.clone(), ops: ops.clone() };
            match learned(|| recursive_rules::<Tb>(met, n, lang, Ruleset::default())) {
                Ok(r) => {
                    g.label("the prior rules explain everything");
                    renamed(&r.iter().map(rule_pair).collect::<Vec<_>>())
                }
                Err(m) => fail!("inference panicked: {}", m),
            }
        }
    };
    g.input(format!(
        "{} | {:?} {} | vals {:?} vars {:?} ops {:?} | prior {}",
        al.describe(),
        met,
        n,
        vals,
        vars,
        ops,
        rules_text(&prior)
    ));
    let (_, end) = oracle::run(egraph::<Tb>(&ts), &rewrites(&prior), 2, 3000);
    if matches!(end, End::TooBig) {
        return Err(Stop::Discard);
    }
    let lang = Lang { vals, vars, ops };
    let mut gave_up = false;
    let got = match catch_unwind(AssertUnwindSafe(|| recursive_rules::<Tb>(met, n, lang.clone(), ruleset(&prior)))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
            if !m.contains("Didn't learn any rules") {
                fail!("inference panicked: {}", m);
            }
            gave_up = true;
            Ruleset::default()
        }
    };
    if gave_up {
        // nothing new at some size from the third on, so the smaller ones explain everything there
        g.label("no new rule at some size");
        let mut below: Vec<(T, T)> = vec![];
        for k in 1..=n {
            let got = catch_unwind(AssertUnwindSafe(|| recursive_rules::<Tb>(met, k, lang.clone(), ruleset(&prior))));
            match got {
                Ok(r) => below = r.iter().map(rule_pair).collect(),
                Err(_) => {
                    ensure!(k >= 3, "inference gives up at size {}, where there may be nothing to learn", k);
                    let ts = enumerate(met, k, &lang.vals, &lang.vars, &lang.ops);
                    let known = dedup_rules(prior.iter().chain(&below).cloned().collect());
                    match explained(al, &ts, &known, &known, Limits::synthesis(), false) {
                        Ok(true) => g.label("rightly gave up"),
                        Ok(false) => g.label("too large to decide"),
                        Err(m) => fail!("nothing was learned at size {}, but {} from {}", k, m, rules_text(&known)),
                    }
                    return Ok(());
                }
            }
        }
        fail!("inference gave up once, but not again");
    }
    let names: std::collections::HashSet<String> = got.iter().map(|r| r.name.to_string()).collect();
    for (l, r) in &prior {
        ensure!(names.contains(&rule_text(l, r)), "prior rule {} is missing from the result", rule_text(l, r));
    }
    let rules: Vec<(T, T)> = got.iter().map(rule_pair).collect();
    for (l, r) in &rules {
        ensure!(al.same(l, r), "{} was inferred but is false", rule_text(l, r));
    }
    let again = redundant(&rules, &prior, 2);
    let at_each: Vec<Vec<T>> = (1..=n).map(|i| enumerate(met, i, &lang.vals, &lang.vars, &lang.ops)).filter(|v| !v.is_empty()).collect();
    let merged = reinferred(&at_each, &prior, 2, &rules);
    ensure!(merged.is_empty(), "merged by the prior rules, but inferred: {}", merged.join(", "));
    ensure!(again.len() <= 2 * n, "already implied by the prior rules, but inferred: {}", again.join(", "));
    g.nontrivial_if(rules.len() > prior.len() + 1);
    // the steps before the last act like prior rules
    let below: Vec<(T, T)> = if n == 1 {
        prior.clone()
    } else {
        match learned(|| recursive_rules::<Tb>(met, n - 1, lang.clone(), ruleset(&prior))) {
            Ok(r) => r.iter().map(rule_pair).collect(),
            Err(m) => fail!("inference panicked: {}", m),
        }
    };
    match explained(al, &ts, &rules, &below, Limits::synthesis(), false) {
        Ok(true) => g.label("complete"),
        Ok(false) => g.label("too large to decide"),
        Err(m) => fail!("{} from {}", m, rules_text(&rules)),
    }
    Ok(())
}

fn main() {
    vharness::engine::main(Prop {
        id: "C16",
        rule: "infer: random finite algebras (k<=3), workloads of up to 10 terms over up to 2 variables, true prior rules, both matchers, iterations 0-2. Every rule must hold for all inputs; with exhaustive total vectors every equal pair of workload subterms whose variables are comparable must be merged by plain egg running the prior and inferred rules over the workload and all writable candidates. No inferred rule may relate terms that the prior rules merge in the e-graph of the workload. At most the first pick at each size may already follow from the prior rules in the rounds minimization runs. recursive: random languages and bounds against the same oracle over an independent enumeration of the terms; the prior rules are none, a few, or all that can be learned under other variable names. Non-trivial: at least two rules were inferred.",
        assumptions: &["egg itself is trusted", "with prior rules, pairs from value classes with terms of unrelated variables are left out"],
        subs: vec![
            Sub { name: "infer", quick: 16_000, thorough: 400_000, f: infer },
            Sub { name: "recursive", quick: 3_000, thorough: 80_000, f: recursive },
        ],
        init: tb::init,
    })
}
