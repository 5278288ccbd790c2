//! C13: minimization returns only validated candidates.
use std::collections::BTreeSet;
use vharness::ensure;
use vharness::engine::*;
use vharness::oracle::*;
use vharness::scen::*;
use vharness::tb::{self, *};

fn minimize(g: &mut G) -> R {
    let c = min_case(g, 6, true);
    let lim = limits(
        g.size(0, 3),
        if g.chance(30) { g.size(0, 40) } else { 400 },
        if g.chance(30) { g.size(1, 4) } else { BIG },
    );
    let s = strategy(g, lim);
    g.input(format!("{} | {} | prior {} | {:?}", c.al.describe(), rules_text(&c.cands), rules_text(&c.prior), s));
    g.label(strategy_name(&s));
    if matches!(s, ruler::enumo::Scheduler::Saturating(_)) {
        // the strategy itself is unlimited in its saturating phases: keep to cases that end quickly
        let sides: Vec<_> = c.cands.iter().flat_map(|(l, r)| [l.clone(), r.clone()]).collect();
        let all: Vec<_> = c.prior.iter().chain(&c.cands).cloned().collect();
        if !run_saturating(egraph::<Tb>(&sides), &all, lim.iter, 3000).1 {
            return Err(Stop::Discard);
        }
    }
    let mut cands = ruleset(&c.cands);
    let prior = ruleset(&c.prior);
    let (chosen, invalid) = cands.minimize(prior.clone(), s);
    ensure!(cands.is_empty(), "{} candidates were not consumed", cands.len());
    let all: BTreeSet<_> = c.cands.iter().cloned().collect();
    let old: BTreeSet<_> = c.prior.iter().cloned().collect();
    let mut seen = BTreeSet::new();
    let mut nvalid = 0;
    for r in chosen.iter() {
        let p = rule_pair(r);
        ensure!(r.name.to_string() == rule_text(&p.0, &p.1), "{} is not the text of its rule", r.name);
        ensure!(all.contains(&p), "{} was returned but is no candidate", r);
        ensure!(!old.contains(&p), "{} was returned but is a prior rule", r);
        ensure!(accepted(&p.0, &p.1), "{} was returned but the validator does not accept it", r);
        ensure!(seen.insert(p), "{} was returned twice", r);
        nvalid += 1;
    }
    for r in invalid.iter() {
        let p = rule_pair(r);
        ensure!(all.contains(&p), "{} is reported as rejected but is no candidate", r);
        ensure!(!accepted(&p.0, &p.1), "{} is reported as rejected but the validator accepts it", r);
    }
    g.label_if(!invalid.is_empty(), "rejected candidates");
    g.label_if(all.iter().any(|p| old.contains(p)), "candidate among the prior rules");
    g.label_if(c.al.validity != Validity::Exact, "directed, undecided or accepting validator");
    g.nontrivial_if(nvalid > 0 && c.cands.len() > nvalid);
    // nothing that is refused disappears without being implied by what was taken or given
    let names: BTreeSet<_> = invalid.iter().map(rule_pair).collect();
    let gone: Vec<_> = all.iter().filter(|p| !accepted(&p.0, &p.1) && !names.contains(*p) && p.0 != p.1).collect();
    if !gone.is_empty() && !matches!(s, ruler::enumo::Scheduler::Saturating(_)) {
        let sides: Vec<_> = all.iter().flat_map(|(l, r)| [l.clone(), r.clone()]).collect();
        let mut rules = c.prior.clone();
        rules.extend(chosen.iter().map(rule_pair));
        let (t, end) = run(egraph::<Tb>(&sides), &rewrites(&rules), lim.iter, 5000);
        if !matches!(end, End::TooBig) {
            for p in gone {
                ensure!(
                    find(&t, &p.0) == find(&t, &p.1),
                    "{} is refused by the validator and not derivable, but not reported as rejected",
                    rule_text(&p.0, &p.1)
                );
            }
        }
    }
    Ok(())
}

fn main() {
    vharness::engine::main(Prop {
        id: "C13",
        rule: "Random candidates (valid rules and their reverses, arbitrary rules), prior rules (possibly among the candidates), validators that are exact, always accept, are undecided on some rules or depend on the direction; all strategies, iterations 0-3, small or large node and match limits. Non-trivial: some rule is returned and some candidate is not.",
        assumptions: &[],
        subs: vec![Sub { name: "minimize", quick: 90_000, thorough: 2_000_000, f: minimize }],
        init: tb::init,
    })
}
