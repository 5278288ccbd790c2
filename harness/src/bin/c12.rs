//! C12: merge-based candidates are exactly the newly equated extractable pairs.
use ruler::enumo::{Ruleset, Scheduler};
use ruler::SynthLanguage;
use vharness::engine::*;
use vharness::oracle::*;
use vharness::scen::*;
use vharness::sx::*;
use vharness::tb::{self, *};
use vharness::{ensure, fail};

fn pairs_case(g: &mut G) -> R {
    let mut al = blank(3);
    for x in al.allowed.iter_mut() {
        *x = g.chance(65);
    }
    if g.chance(15) {
        al.allowed = [true; NOPS];
    }
    let allowed = al.allowed;
    set_alg(al);
    let rules = dedup_rules(gen_any_rules(g, 3, 4));
    let ts = instances(g, &rules, 3, 6);
    let subs = subterms(&ts);
    let mut us = vec![];
    for _ in 0..g.tail(0, 2, 8, 4) {
        us.push((g.pick(&subs).clone(), g.pick(&subs).clone()));
    }
    let e1 = real_with(&ts, &us);
    let e2 = if g.chance(25) {
        // arbitrary merges
        let mut more = us.clone();
        for _ in 0..if g.chance(4) { g.size(3, 12) } else { g.size(1, 3) } {
            more.push((g.pick(&subs).clone(), g.pick(&subs).clone()));
        }
        g.input(format!("{:?} {} | {} then {}", allowed, show(&ts), show_unions(&us), show_unions(&more)));
        let mut e = e1.clone();
        for (x, y) in &more {
            let (i, j) = (real_find(&e1, x).unwrap(), real_find(&e1, y).unwrap());
            e.union(i, j);
        }
        e.rebuild();
        e
    } else {
        let lim = limits(g.size(1, 2), BIG, BIG);
        let s = strategy(g, lim);
        g.input(format!("{:?} {} | {} | {} | {:?}", allowed, rules_text(&rules), show(&ts), show_unions(&us), s));
        let (_, end) = run(trusted_with(&ts, &us), &rewrites(&rules), lim.iter, 3000);
        let sat = matches!(s, Scheduler::Saturating(_));
        if matches!(end, End::TooBig) || (sat && !run_saturating(trusted_with(&ts, &us), &rules, lim.iter, 3000).1) {
            return Err(Stop::Discard);
        }
        s.run(&e1, &ruleset(&rules))
    };
    let before = (digest(&e1), digest(&e2));
    let got = Ruleset::extract_candidates(&e1, &e2);
    ensure!(before == (digest(&e1), digest(&e2)), "an e-graph changed");
    let terms = match smallest(&e1, &|n| n.is_allowed_op(), 6) {
        Some(t) => t,
        None => return Err(Stop::Discard),
    };
    let ids: Vec<egg::Id> = e1.classes().map(|c| c.id).collect();
    let mut pairs = vec![];
    let mut hidden = false;
    for (i, x) in ids.iter().enumerate() {
        for y in &ids[i + 1..] {
            if e2.find(*x) == e2.find(*y) {
                if terms.contains_key(x) && terms.contains_key(y) {
                    pairs.push((*x, *y));
                } else {
                    hidden = true;
                }
            }
        }
    }
    g.label_if(hidden, "merged class that cannot be written");
    g.nontrivial_if(!pairs.is_empty());
    if let Err(m) = check_candidates(&got, &pairs, &terms) {
        fail!("{}", m);
    }
    for r in got.iter() {
        for side in [&r.lhs, &r.rhs] {
            let ok = side.ast.as_ref().iter().all(|n| match n {
                egg::ENodeOrVar::ENode(n) => n.is_allowed_op(),
                _ => true,
            });
            ensure!(ok, "{} uses a disallowed operator", r);
        }
    }
    Ok(())
}

fn main() {
    vharness::engine::main(Prop {
        id: "C12",
        rule: "Random e-graphs with random earlier merges and a second e-graph made by any strategy with arbitrary rules, or by arbitrary merges; random sets of allowed operators and literals. Expected: for every two classes of the first e-graph that are one in the second, the rules between smallest writable terms (any of them when several are smallest), up to renaming; nothing else. Non-trivial: at least one writable pair was merged.",
        assumptions: &["egg's extractor finds a smallest term"],
        subs: vec![Sub { name: "pairs", quick: 200_000, thorough: 4_000_000, f: pairs_case }],
        init: tb::init,
    })
}
