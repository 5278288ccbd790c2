//! C14: minimization loses no proving power and picks best-scored rules first.
use ruler::enumo::Scheduler;
use std::collections::BTreeSet;
use vharness::engine::*;
use vharness::oracle::{self, *};
use vharness::scen::*;
use vharness::sx::T;
use vharness::tb::{self, *};
use vharness::{ensure, fail};

fn reference(ts: &[T], rules: &[(T, T)], s: &Scheduler) -> Option<EG<Tb>> {
    let start = egraph::<Tb>(ts);
    match s {
        Scheduler::Saturating(l) => {
            let (t, ok) = oracle::run_saturating(start, rules, l.iter, 4000);
            ok.then_some(t)
        }
        Scheduler::Simple(l) | Scheduler::Compress(l) => {
            let (t, end) = oracle::run(start, &rewrites(rules), l.iter, 4000);
            (!matches!(end, End::TooBig)).then_some(t)
        }
    }
}

fn minimize(g: &mut G) -> R {
    let c = min_case(g, 7, false);
    let lim = limits(g.size(0, 3), BIG, BIG);
    let s = match g.weighted(&[2, 2, 4]) {
        0 => Scheduler::Simple(lim),
        1 => Scheduler::Saturating(lim),
        _ => Scheduler::Compress(lim),
    };
    g.input(format!("{} | {} | prior {} | {:?}", c.al.describe(), rules_text(&c.cands), rules_text(&c.prior), s));
    g.label(strategy_name(&s));
    let sides: Vec<T> = c.cands.iter().flat_map(|(l, r)| [l.clone(), r.clone()]).collect();
    // everything that could take part, to keep to cases that end quickly
    let valid: Vec<(T, T)> = c.cands.iter().filter(|(l, r)| accepted(l, r)).cloned().collect();
    let mut most = c.prior.clone();
    most.extend(valid.iter().cloned());
    if reference(&sides, &most, &s).is_none() {
        return Err(Stop::Discard);
    }
    let mut cands = ruleset(&c.cands);
    let (chosen, _) = cands.minimize(ruleset(&c.prior), s);
    let order: Vec<(T, T)> = chosen.iter().map(rule_pair).collect();
    let taken: BTreeSet<(T, T)> = order.iter().cloned().collect();
    // proving power
    let mut rules = c.prior.clone();
    rules.extend(order.iter().cloned());
    let t = match reference(&sides, &rules, &s) {
        Some(t) => t,
        None => return Err(Stop::Discard),
    };
    let mut dropped = 0;
    for (l, r) in &valid {
        if !taken.contains(&(l.clone(), r.clone())) && !c.prior.contains(&(l.clone(), r.clone())) && l != r {
            dropped += 1;
            if find(&t, l) != find(&t, r) {
                fail!("{} is dropped but not derivable from {}", rule_text(l, r), rules_text(&rules));
            }
        }
    }
    g.label_if(dropped > 0, "valid candidates dropped");
    g.nontrivial_if(dropped > 0 && order.len() > 1);
    // Order: the returned ruleset lists the rules as they were taken, except that removing the prior
    // rules from an ordered set may move the last rule into the place of the removed one.
    match ordered(&order, &c, &valid, &s) {
        Ok(()) => Ok(()),
        Err(e) => {
            let mut tokens: Vec<usize> = (0..c.prior.len() + order.len()).collect();
            for p in 0..c.prior.len() {
                let k = tokens.iter().position(|t| *t == p).unwrap();
                tokens.swap_remove(k);
            }
            let mut back = order.clone();
            for (k, t) in tokens.iter().enumerate() {
                back[t - c.prior.len()] = order[k].clone();
            }
            if back != order && ordered(&back, &c, &valid, &s).is_ok() {
                g.label("order up to removal of the prior rules");
                Ok(())
            } else {
                Err(e)
            }
        }
    }
}

fn ordered(order: &[(T, T)], c: &MinCase, valid: &[(T, T)], s: &Scheduler) -> R {
    let iters = match s {
        Scheduler::Simple(l) | Scheduler::Saturating(l) | Scheduler::Compress(l) => l.iter,
    };
    let sides: Vec<T> = c.cands.iter().flat_map(|(l, r)| [l.clone(), r.clone()]).collect();
    // order: what could have been taken at every step
    let mut before = c.prior.clone();
    let mut k = 0;
    while k < order.len() {
        let (l, r) = &order[k];
        let sc = ref_score(l, r);
        // a prior rule or a trivial candidate may have been taken before, which does not show
        let first = k == 0 && !valid.iter().any(|p| (c.prior.contains(p) || p.0 == p.1) && ref_score(&p.0, &p.1) >= sc);
        let all = if first { None } else { reference(&sides, &before, s) };
        for (cl, cr) in valid {
            let known = before.contains(&(cl.clone(), cr.clone()));
            if known || ref_score(cl, cr) <= sc {
                continue;
            }
            let implied = match &all {
                Some(t) => find(t, cl) == find(t, cr),
                None => !first,
            };
            ensure!(
                implied || (cl == cr && !first),
                "{} was taken at position {} although {} has a better score and is not implied by what came before",
                rule_text(l, r),
                k,
                rule_text(cl, cr)
            );
        }
        if k > 0 && iters > 0 && l != r {
            // implied by its own terms alone: must have been dropped
            if let Some(t) = reference(&[l.clone(), r.clone()], &before, s) {
                ensure!(
                    find(&t, l) != find(&t, r),
                    "{} was taken although it follows from {}",
                    rule_text(l, r),
                    rules_text(&before)
                );
            }
        }
        before.push((l.clone(), r.clone()));
        k += 1;
        // its reverse comes along
        if k < order.len() && order[k] == (r.clone(), l.clone()) {
            before.push(order[k].clone());
            k += 1;
        } else {
            let rev = (r.clone(), l.clone());
            ensure!(
                l == r || !valid.contains(&rev) || c.prior.contains(&rev),
                "{} was taken but its reverse, also a valid candidate, was not taken with it",
                rule_text(l, r)
            );
        }
    }
    Ok(())
}

fn main() {
    vharness::engine::main(Prop {
        id: "C14",
        rule: "Random candidates over random algebras (exact validator), prior rules, all strategies, iterations 0-3, other limits unlimited. Dropped valid candidates are re-derived by plain egg from all candidate terms; every rule taken is compared by score with every valid candidate that plain egg cannot derive from what came before, and must not follow from its own two terms. Non-trivial: a valid candidate is dropped and at least two rules are taken.",
        assumptions: &["egg itself is trusted"],
        subs: vec![Sub { name: "minimize", quick: 40_000, thorough: 800_000, f: minimize }],
        init: tb::init,
    })
}
